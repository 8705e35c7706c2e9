//! the request macros
use std::collections::BTreeMap;

use proc_macro2::{TokenStream as Ts, TokenTree};
use quote::{quote, ToTokens};
use syn::Expr;

/// what an expansion evaluates to
#[derive(Clone, Debug, PartialEq)]
enum T {
    Absent,
    Present(Box<T>),
    Text(String),
    Int(String),
    Bool(bool),
    List(Vec<T>),
    Map(BTreeMap<String, T>),
    /// a struct or a variant with named fields
    Struct(String, BTreeMap<String, T>),
    /// a variant with unnamed fields
    Variant(String, Vec<T>),
    Default(String),
    /// an expression of the caller, or a constant
    Code(String),
}
use T::*;

/// an expansion the evaluator does not understand
struct Unknown;

fn code(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}
fn name(p: &syn::Path) -> String {
    let s = code(p);
    let s = s.trim_start_matches("::");
    s.strip_prefix("vercre_issuer::").unwrap_or(s).to_string()
}
fn items(t: &Ts) -> Option<Vec<Expr>> {
    use syn::parse::Parser;
    let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
    p.parse2(t.clone()).ok().map(|l| l.into_iter().collect())
}
fn eval_all<'a>(l: impl IntoIterator<Item = &'a Expr>) -> Result<Vec<T>, Unknown> {
    l.into_iter().map(eval).collect()
}
fn map_of(e: &Expr) -> Result<T, Unknown> {
    let e = match e {
        Expr::Macro(m) if name(&m.mac.path).ends_with("vec") => items(&m.mac.tokens).ok_or(Unknown)?,
        Expr::Array(a) => a.elems.iter().cloned().collect(),
        _ => return Err(Unknown),
    };
    let mut m = BTreeMap::new();
    for e in &e {
        let Expr::Tuple(t) = e else { return Err(Unknown) };
        let (Some(k), Some(v), 2) = (t.elems.first(), t.elems.last(), t.elems.len()) else { return Err(Unknown) };
        let Text(k) = eval(k)? else { return Err(Unknown) };
        m.insert(k, eval(v)?);
    }
    Ok(Map(m))
}
fn eval(e: &Expr) -> Result<T, Unknown> {
    Ok(match e {
        Expr::Paren(p) => eval(&p.expr)?,
        Expr::Group(p) => eval(&p.expr)?,
        Expr::Reference(r) => eval(&r.expr)?,
        Expr::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Text(s.value()),
            syn::Lit::Int(i) => Int(i.base10_digits().to_string()),
            syn::Lit::Bool(b) => Bool(b.value),
            _ => return Err(Unknown),
        },
        Expr::Path(p) => match name(&p.path).as_str() {
            n if n == "None" || n.ends_with("Option::None") => Absent,
            n => Code(n.to_string()),
        },
        Expr::Array(a) => List(eval_all(&a.elems)?),
        Expr::Macro(m) if name(&m.mac.path).ends_with("vec") => List(eval_all(&items(&m.mac.tokens).ok_or(Unknown)?)?),
        Expr::Struct(s) => {
            if s.rest.is_some() {
                return Err(Unknown);
            }
            let mut m = BTreeMap::new();
            for f in &s.fields {
                m.insert(code(&f.member), eval(&f.expr)?);
            }
            Struct(name(&s.path), m)
        }
        Expr::MethodCall(c) => match (c.method.to_string().as_str(), c.args.len()) {
            ("into" | "to_string" | "to_owned" | "to_vec" | "clone", 0) => eval(&c.receiver)?,
            ("unwrap" | "unwrap_or_default", 0) => match eval(&c.receiver)? {
                Present(v) => *v,
                _ => return Err(Unknown),
            },
            // of an expression of the caller
            _ => match eval(&c.receiver)? {
                Code(_) => Code(code(e)),
                _ => return Err(Unknown),
            },
        },
        Expr::Block(b) if b.label.is_none() => match b.block.stmts.as_slice() {
            [syn::Stmt::Expr(e, None)] => eval(e)?,
            _ => return Err(Unknown),
        },
        Expr::Call(c) => {
            let Expr::Path(p) = &*c.func else { return Err(Unknown) };
            let n = name(&p.path);
            let last = n.rsplit("::").next().unwrap_or("").to_string();
            let ty = n.rsplit("::").nth(1).unwrap_or("").to_string();
            match (ty.as_str(), last.as_str(), c.args.first()) {
                ("Into", "into", Some(a)) | ("String", "from", Some(a)) | ("Vec", "from", Some(a)) => eval(a)?,
                ("" | "Option", "Some", Some(a)) => Present(Box::new(eval(a)?)),
                ("HashMap", "from" | "from_iter", Some(a)) => map_of(a)?,
                ("HashMap", "new", None) => Map(BTreeMap::new()),
                ("Vec", "new", None) => List(vec![]),
                ("Default", "default", None) => return Err(Unknown),
                (_, "default", None) => Default(n.rsplit_once("::").map_or(n.clone(), |(a, _)| a.to_string())),
                (t, l, _) if t.starts_with(char::is_uppercase) && l.starts_with(char::is_uppercase) => Variant(n, eval_all(&c.args)?),
                ("", "compute", _) => Code(code(e)), // of the caller
                _ => return Err(Unknown),
            }
        }
        Expr::Field(_) | Expr::Index(_) => Code(code(e)),
        _ => return Err(Unknown),
    })
}
/// is the expansion an error (anywhere in it)
fn refused(t: &Ts) -> bool {
    t.clone().into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == "compile_error",
        TokenTree::Group(g) => refused(&g.stream()),
        _ => false,
    })
}
fn mentions(t: &Ts, text: &str) -> bool {
    t.clone().into_iter().any(|t| match t {
        TokenTree::Literal(l) => l.to_string().contains(text),
        TokenTree::Group(g) => mentions(&g.stream(), text),
        _ => false,
    })
}
fn text(s: &str) -> T {
    Text(s.to_string())
}
fn object(n: &str, f: Vec<(&str, T)>) -> T {
    Struct(n.to_string(), f.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
fn variant(n: &str, v: T) -> T {
    Variant(n.to_string(), vec![v])
}
fn constant(n: &str) -> T {
    Code(n.to_string())
}
fn some(v: T) -> T {
    Present(Box::new(v))
}
/// Rust evaluates the expansion to `want`
fn expect(got: &Ts, want: &T, label: &str) {
    if refused(got) {
        sym::check(false, label);
        return;
    }
    let Ok(e) = syn::parse2::<Expr>(got.clone()) else {
        sym::check(false, "the expansion is valid Rust");
        return;
    };
    sym::check(well_formed(got), "the expansion is valid Rust");
    match eval(&e) {
        Ok(v) => {
            sym::check(v == *want, label);
            sym::cover("built");
        }
        Err(Unknown) => sym::cover("not understood"),
    }
}
/// the lists within an expansion are lists of expressions (the compiler parses them later)
fn well_formed(t: &Ts) -> bool {
    let v: Vec<TokenTree> = t.clone().into_iter().collect();
    v.iter().enumerate().all(|(i, t)| match t {
        TokenTree::Group(g) => {
            let list = i >= 2 && matches!(&v[i - 2], TokenTree::Ident(d) if d == "vec");
            (!list || items(&g.stream()).is_some()) && well_formed(&g.stream())
        }
        _ => true,
    })
}

/// a JSON-like object of the given members, in either order
fn braces(f: &[(&str, Ts)], reverse: bool) -> Ts {
    let mut m: Vec<Ts> = f.iter().map(|(k, v)| quote! { #k: #v }).collect();
    if reverse {
        m.reverse();
    }
    quote! { { #(#m),* } }
}
/// a value in one of the forms a caller can write, and what it stands for
fn value(form: usize, name: &str) -> (Ts, T) {
    match form {
        0 => {
            let s = sym::ascii_upto(name, 0, sym::by_tier(1, 2));
            (quote! { #s }, Text(s))
        }
        1 => (quote! { some_value }, constant("some_value")),
        2 => (quote! { &some_value }, constant("some_value")),
        3 => (quote! { place::VALUE }, constant("place::VALUE")),
        4 => (quote! { compute(1, other) }, constant("compute(1,other)")),
        5 => (quote! { some.value(2).first }, Code(code(quote! { some.value(2).first }))),
        6 => (quote! { VALUE }, constant("VALUE")),
        _ => (quote! { &"a \"text\" \\ with {escapes}\n" }, text("a \"text\" \\ with {escapes}\n")),
    }
}
const FORMS: usize = 8;

/// required and optional fields with a text value: fills in the members and what they become. Either any of the
/// optional ones are there, or all of them are and one field takes every form of value.
fn texts(required: &[&'static str], optional: &[&'static str], forms: bool, members: &mut Vec<(&'static str, Ts)>, want: &mut BTreeMap<&'static str, T>) {
    let focus = if forms { sym::choose("focus", required.len() + optional.len()) } else { usize::MAX };
    for (i, k) in required.iter().chain(optional).enumerate() {
        let opt = i >= required.len();
        if opt && !forms && !sym::flip("present") {
            want.insert(k, Absent);
            continue;
        }
        let (t, v) = if i == focus {
            value(sym::choose("form", FORMS), "v")
        } else {
            let s = format!("the {k}");
            (quote! { #s }, Text(s))
        };
        members.push((k, t));
        want.insert(k, if opt { some(v) } else { v });
    }
}
/// a value that takes every form, or a text
fn either(forms: bool, name: &str) -> (Ts, T) {
    if forms {
        value(sym::choose("form", FORMS), name)
    } else {
        let s = format!("the {name}");
        (quote! { #s }, Text(s))
    }
}
fn of(want: &BTreeMap<&'static str, T>, k: &str) -> T {
    want[k].clone()
}

/// offers: every combination of fields
#[cfg(feature = "r01")]
#[no_mangle]
pub extern "C" fn r01_offer() {
    let (mut m, mut w) = (vec![], BTreeMap::new());
    let forms = sym::choose("forms", 3); // of no value, of a field, of an identifier
    texts(&["credential_issuer"], &["subject_id"], forms == 1, &mut m, &mut w);
    let n = if forms == 0 { 1 + sym::choose("ids", 3) } else { 2 };
    let ids: Vec<(Ts, T)> = (0..n)
        .map(|i| {
            if i == 1 && forms == 2 {
                return either(true, "id");
            }
            let s = format!("id {i}");
            (quote! { #s }, Text(s))
        })
        .collect();
    let t = ids.iter().map(|(t, _)| t);
    m.push(("credential_configuration_ids", quote! { [#(#t),*] }));
    let pre = ("urn:ietf:params:oauth:grant-type:pre-authorized_code", "GrantType::PreAuthorizedCode");
    let code = ("authorization_code", "GrantType::AuthorizationCode");
    let grants = match if forms == 0 { sym::choose("grants", 6) } else { 0 } {
        0 => None,
        1 => Some(vec![pre]),
        2 => Some(vec![code]),
        3 => Some(vec![pre, code]),
        4 => Some(vec![code, pre]),
        _ => Some(vec![]),
    };
    let mut grant_types = Absent;
    if let Some(g) = grants {
        let t = g.iter().map(|g| g.0);
        m.push(("grant_types", quote! { [#(#t),*] }));
        grant_types = some(List(g.iter().map(|g| constant(g.1)).collect()));
    }
    let tx = if forms == 0 { sym::choose("tx_code", 4) } else { 0 };
    let tx_code_required = match tx {
        0 => Bool(false),
        1 | 2 => {
            let b = tx == 2;
            m.push(("tx_code_required", quote! { #b }));
            Bool(b)
        }
        _ => {
            m.push(("tx_code_required", quote! { tx_needed }));
            constant("tx_needed")
        }
    };
    let send = if forms == 0 { sym::choose("send", 4) } else { 0 };
    let send_type = match send {
        0 => constant("SendType::ByVal"),
        1 => {
            m.push(("send_type", quote! { SendType::ByVal }));
            constant("SendType::ByVal")
        }
        2 => {
            m.push(("send_type", quote! { SendType::ByRef }));
            constant("SendType::ByRef")
        }
        _ => {
            m.push(("send_type", quote! { how }));
            constant("how")
        }
    };
    let got = crate::create_offer_request(braces(&m, sym::flip("reverse")));
    let want = object(
        "CreateOfferRequest",
        vec![
            ("credential_issuer", of(&w, "credential_issuer")),
            ("subject_id", of(&w, "subject_id")),
            ("credential_configuration_ids", List(ids.into_iter().map(|i| i.1).collect())),
            ("grant_types", grant_types),
            ("tx_code_required", tx_code_required),
            ("send_type", send_type),
        ],
    );
    expect(&got, &want, "an offer request is what was written");
}

/// a credential subject: none, empty, or claims, some of them nested
fn subject() -> (Option<Ts>, T) {
    let entry = || variant("Claim::Entry", Default("ClaimDefinition".to_string()));
    let map = |v: Vec<(&str, T)>| Map(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    match sym::choose("subject", 5) {
        0 => (None, Absent),
        1 => (Some(quote! { {} }), some(map(vec![]))),
        2 => {
            let k = ["a", "", "given name", "\"quoted\"", "ünïcode", "type"][sym::choose("claim", 6)].to_string();
            (Some(quote! { { #k: {} } }), some(map(vec![(&k, entry())])))
        }
        3 => (Some(quote! { { "given_name": {}, "family_name": {} } }), some(map(vec![("given_name", entry()), ("family_name", entry())]))),
        _ => (
            Some(quote! { { "email": {}, "address": { "street": {}, "geo": { "lat": {} } } } }),
            some(map(vec![("email", entry()), ("address", variant("Claim::Set", map(vec![("street", entry()), ("geo", variant("Claim::Set", map(vec![("lat", entry())])))])))])),
        ),
    }
}
/// a credential definition; `full`: one that has to have a type
fn definition(full: bool) -> (Ts, T) {
    let mut m = vec![];
    let mut type_ = Absent;
    if full || sym::flip("typed") {
        let n = 1 + sym::choose("types", 2);
        let l: Vec<(Ts, T)> = (0..n).map(|i| if i == 1 { value(sym::choose("type", 2), "type") } else { (quote! { "VerifiableCredential" }, text("VerifiableCredential")) }).collect();
        let t = l.iter().map(|l| &l.0);
        m.push(("type", quote! { [#(#t),*] }));
        type_ = some(List(l.into_iter().map(|l| l.1).collect()));
    }
    let (s, subject) = subject();
    if let Some(s) = s {
        m.push(("credentialSubject", s));
    }
    (braces(&m, false), object("CredentialDefinition", vec![("context", Absent), ("type_", type_), ("credential_subject", subject)]))
}
/// authorization details, one or two of them
fn details() -> (Option<Ts>, T) {
    let n = sym::choose("details", 3);
    if n == 0 {
        return (None, Absent);
    }
    let (mut ts, mut want) = (vec![], vec![]);
    for i in 0..n {
        let (body, credential) = if i == 0 && sym::flip("by format") {
            let (d, w) = definition(true);
            (
                vec![("format", quote! { "jwt_vc_json" }), ("credential_definition", d)],
                variant("CredentialAuthorization::Format", variant("Format::JwtVcJson", object("ProfileW3c", vec![("credential_definition", w)]))),
            )
        } else {
            let (id, idw) = if i == 0 { either(n == 1 && sym::flip("forms"), "config") } else { (quote! { "second" }, text("second")) };
            let mut b = vec![("credential_configuration_id", id)];
            let mut claims = Absent;
            if i == 0 && idw == text("the config") && sym::flip("defined") {
                let (d, w) = definition(false);
                b.push(("credential_definition", d));
                claims = some(variant("ProfileClaims::W3c", w));
            }
            (b, object("CredentialAuthorization::ConfigurationId", vec![("credential_configuration_id", idw), ("claims", claims)]))
        };
        let mut b = vec![("type", quote! { "openid_credential" })];
        b.extend(body);
        ts.push(braces(&b, false));
        want.push(object("AuthorizationDetail", vec![("type_", constant("AuthorizationDetailType::OpenIdCredential")), ("credential", credential), ("locations", Absent)]));
    }
    (Some(quote! { [#(#ts),*] }), some(List(want)))
}

const AUTH: [&str; 6] = ["credential_issuer", "response_type", "client_id", "code_challenge", "code_challenge_method", "subject_id"];
const AUTH_OPT: [&str; 7] = ["redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state"];

fn auth(w: &BTreeMap<&'static str, T>, details: T) -> T {
    let mut f: Vec<(&str, T)> = w.iter().map(|(k, v)| (*k, v.clone())).collect();
    f.push(("authorization_details", details));
    variant("AuthorizationRequest::Object", object("RequestObject", f))
}
/// authorization requests: every combination of fields
#[cfg(feature = "r01")]
#[no_mangle]
pub extern "C" fn r01_authorization() {
    let (mut m, mut w) = (vec![], BTreeMap::new());
    texts(&AUTH, &AUTH_OPT, sym::flip("forms"), &mut m, &mut w);
    let got = crate::authorization_request(braces(&m, sym::flip("reverse")));
    expect(&got, &auth(&w, Absent), "an authorization request is what was written");
}
/// authorization requests: every form of details
#[cfg(feature = "r01")]
#[no_mangle]
pub extern "C" fn r01_authorization_details() {
    let (mut m, mut w) = (vec![], BTreeMap::new());
    for k in AUTH {
        m.push((k, quote! { #k }));
        w.insert(k, text(k));
    }
    for k in AUTH_OPT {
        w.insert(k, Absent);
    }
    let (d, want) = details();
    if let Some(d) = d {
        m.push(("authorization_details", d));
    }
    let got = crate::authorization_request(braces(&m, false));
    expect(&got, &auth(&w, want), "an authorization request has the details that were written");
}

fn token(w: &BTreeMap<&'static str, T>, pre: bool, details: T) -> T {
    let grant = if pre {
        object("TokenGrantType::PreAuthorizedCode", vec![("pre_authorized_code", of(w, "pre-authorized_code")), ("tx_code", of(w, "tx_code"))])
    } else {
        object("TokenGrantType::AuthorizationCode", vec![("code", of(w, "code")), ("redirect_uri", of(w, "redirect_uri")), ("code_verifier", some(of(w, "code_verifier")))])
    };
    object(
        "TokenRequest",
        vec![("credential_issuer", of(w, "credential_issuer")), ("client_id", of(w, "client_id")), ("grant_type", grant), ("authorization_details", details), ("client_assertion", Absent)],
    )
}
const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";
/// token requests: every combination of fields
#[cfg(feature = "r01")]
#[no_mangle]
pub extern "C" fn r01_token() {
    let (mut m, mut w) = (vec![], BTreeMap::new());
    let pre = sym::flip("pre-authorized");
    let forms = sym::flip("forms");
    if pre {
        m.push(("grant_type", quote! { #PRE }));
        texts(&["credential_issuer", "pre-authorized_code"], &["client_id", "tx_code"], forms, &mut m, &mut w);
    } else {
        m.push(("grant_type", quote! { "authorization_code" }));
        texts(&["credential_issuer", "code", "code_verifier"], &["client_id", "redirect_uri"], forms, &mut m, &mut w);
    }
    let got = crate::token_request(braces(&m, sym::flip("reverse")));
    expect(&got, &token(&w, pre, Absent), "a token request is what was written");
}
/// token requests: every form of details
#[cfg(feature = "r01")]
#[no_mangle]
pub extern "C" fn r01_token_details() {
    let mut m = vec![("grant_type", quote! { #PRE })];
    let mut w = BTreeMap::from([("client_id", Absent), ("tx_code", Absent)]);
    for k in ["credential_issuer", "pre-authorized_code"] {
        m.push((k, quote! { #k }));
        w.insert(k, text(k));
    }
    let (d, want) = details();
    if let Some(d) = d {
        m.push(("authorization_details", d));
    }
    let got = crate::token_request(braces(&m, false));
    expect(&got, &token(&w, true, want), "a token request has the details that were written");
}
/// credential requests
#[cfg(feature = "r01")]
#[no_mangle]
pub extern "C" fn r01_credential() {
    let (mut m, mut w) = (vec![], BTreeMap::new());
    let forms = sym::choose("forms", 4); // of no value, of a field, of the identifier, of the proof
    texts(&["credential_issuer", "access_token"], &[], forms == 1, &mut m, &mut w);
    let credential = if forms == 0 && sym::flip("by format") {
        let (d, v) = definition(true);
        m.push(("format", quote! { "jwt_vc_json" }));
        m.push(("credential_definition", d));
        variant("CredentialIssuance::Format", variant("Format::JwtVcJson", object("ProfileW3c", vec![("credential_definition", v)])))
    } else {
        let (t, v) = either(forms == 2, "id");
        m.push(("credential_identifier", t));
        object("CredentialIssuance::Identifier", vec![("credential_identifier", v)])
    };
    let mut proof = Absent;
    if forms > 0 || sym::flip("proof") {
        let (t, v) = either(forms == 3, "jwt");
        m.push(("proof", quote! { { "proof_type": "jwt", "jwt": #t } }));
        proof = some(object("Proof::Single", vec![("proof_type", object("SingleProof::Jwt", vec![("jwt", v)]))]));
    }
    let mut enc = Absent;
    if forms == 0 && sym::flip("encrypted") {
        m.push(("credential_response_encryption", quote! { encryption }));
        enc = some(constant("encryption"));
    }
    let got = crate::credential_request(braces(&m, sym::flip("reverse")));
    let want = object(
        "CredentialRequest",
        vec![("credential_issuer", of(&w, "credential_issuer")), ("access_token", of(&w, "access_token")), ("credential", credential), ("proof", proof), ("credential_response_encryption", enc)],
    );
    expect(&got, &want, "a credential request is what was written");
}

/// every layout of a request: any order of the members, on any level, with or without a trailing comma
#[cfg(feature = "r01")]
#[no_mangle]
pub extern "C" fn r01_layout() {
    let (rotate, back, comma) = (sym::choose("rotate", 8), sym::flip("reverse"), sym::choose("comma", 3));
    let lay = |mut m: Vec<Ts>, level: usize| {
        if back {
            m.reverse();
        }
        let n = m.len();
        m.rotate_left(rotate % n);
        if comma == level {
            quote! { #(#m),*, }
        } else {
            quote! { #(#m),* }
        }
    };
    let obj = |m: &[(&str, Ts)], level: usize| {
        let m = lay(m.iter().map(|(k, v)| quote! { #k: #v }).collect(), level);
        quote! { { #m } }
    };
    let entry = || variant("Claim::Entry", Default("ClaimDefinition".to_string()));
    let map = |v: Vec<(&str, T)>| Map(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    let address = obj(&[("street", quote! { {} }), ("city", quote! { {} }), ("geo", quote! { { "lat": {} } })], 1);
    let subject = obj(&[("email", quote! { {} }), ("address", address), ("given_name", quote! { {} })], 1);
    let subject_w = map(vec![
        ("email", entry()),
        ("given_name", entry()),
        ("address", variant("Claim::Set", map(vec![("street", entry()), ("city", entry()), ("geo", variant("Claim::Set", map(vec![("lat", entry())])))]))),
    ]);
    let types = if comma == 1 { quote! { ["A", "B", "C",] } } else { quote! { ["A", "B", "C"] } };
    let def = obj(&[("type", types), ("credentialSubject", subject)], 1);
    let abc = || List(vec![text("A"), text("B"), text("C")]);
    let def_w = object("CredentialDefinition", vec![("context", Absent), ("type_", some(abc())), ("credential_subject", some(subject_w))]);
    let detail = |c: T| object("AuthorizationDetail", vec![("type_", constant("AuthorizationDetailType::OpenIdCredential")), ("credential", c), ("locations", Absent)]);
    let d1 = obj(&[("type", quote! { "openid_credential" }), ("format", quote! { "jwt_vc_json" }), ("credential_definition", def.clone())], 1);
    let d2 = obj(&[("type", quote! { "openid_credential" }), ("credential_configuration_id", quote! { "X" }), ("credential_definition", def.clone())], 1);
    let d3 = obj(&[("type", quote! { "openid_credential" }), ("credential_configuration_id", quote! { "Y" })], 1);
    let format = variant("Format::JwtVcJson", object("ProfileW3c", vec![("credential_definition", def_w.clone())]));
    let details = if comma == 1 { quote! { [#d1, #d2, #d3,] } } else { quote! { [#d1, #d2, #d3] } };
    let by_id = |id: &str, c: T| detail(object("CredentialAuthorization::ConfigurationId", vec![("credential_configuration_id", text(id)), ("claims", c)]));
    let details_w = some(List(vec![
        detail(variant("CredentialAuthorization::Format", format.clone())),
        by_id("X", some(variant("ProfileClaims::W3c", def_w))),
        by_id("Y", Absent),
    ]));
    let (mut m, mut w): (Vec<(&'static str, Ts)>, BTreeMap<&'static str, T>) = (vec![], BTreeMap::new());
    let fields = |req: &[&'static str], opt: &[&'static str], m: &mut Vec<(&'static str, Ts)>, w: &mut BTreeMap<&'static str, T>| {
        for (i, k) in req.iter().chain(opt).enumerate() {
            m.push((k, quote! { #k }));
            w.insert(k, if i < req.len() { text(k) } else { some(text(k)) });
        }
    };
    let kind = sym::choose("kind", 6);
    let want = match kind {
        0 => {
            fields(&["credential_issuer"], &["subject_id"], &mut m, &mut w);
            let list = if comma == 1 { quote! { ["A", "B", "C",] } } else { quote! { ["A", "B", "C"] } };
            m.push(("credential_configuration_ids", list));
            m.push(("grant_types", quote! { [#PRE, "authorization_code"] }));
            m.push(("tx_code_required", quote! { true }));
            m.push(("send_type", quote! { SendType::ByRef }));
            object(
                "CreateOfferRequest",
                vec![
                    ("credential_issuer", of(&w, "credential_issuer")),
                    ("subject_id", of(&w, "subject_id")),
                    ("credential_configuration_ids", abc()),
                    ("grant_types", some(List(vec![constant("GrantType::PreAuthorizedCode"), constant("GrantType::AuthorizationCode")]))),
                    ("tx_code_required", Bool(true)),
                    ("send_type", constant("SendType::ByRef")),
                ],
            )
        }
        1 => {
            fields(&AUTH, &AUTH_OPT, &mut m, &mut w);
            m.push(("authorization_details", details));
            auth(&w, details_w)
        }
        2 | 3 => {
            let g = if kind == 2 { PRE } else { "authorization_code" };
            m.push(("grant_type", quote! { #g }));
            m.push(("authorization_details", details));
            if kind == 2 {
                fields(&["credential_issuer", "pre-authorized_code"], &["client_id", "tx_code"], &mut m, &mut w);
            } else {
                fields(&["credential_issuer", "code", "code_verifier"], &["client_id", "redirect_uri"], &mut m, &mut w);
            }
            token(&w, kind == 2, details_w)
        }
        _ => {
            fields(&["credential_issuer", "access_token"], &[], &mut m, &mut w);
            m.push(("proof", obj(&[("proof_type", quote! { "jwt" }), ("jwt", quote! { "J" })], 1)));
            let credential = if kind == 4 {
                m.push(("credential_identifier", quote! { "X" }));
                object("CredentialIssuance::Identifier", vec![("credential_identifier", text("X"))])
            } else {
                m.push(("format", quote! { "jwt_vc_json" }));
                m.push(("credential_definition", def));
                variant("CredentialIssuance::Format", format)
            };
            object(
                "CredentialRequest",
                vec![
                    ("credential_issuer", of(&w, "credential_issuer")),
                    ("access_token", of(&w, "access_token")),
                    ("credential", credential),
                    ("proof", some(object("Proof::Single", vec![("proof_type", object("SingleProof::Jwt", vec![("jwt", text("J"))]))]))),
                    ("credential_response_encryption", Absent),
                ],
            )
        }
    };
    let got = expand([0, 1, 2, 3, 4, 4][kind], obj(&m, 0));
    expect(&got, &want, "the layout of a request changes nothing");
}
/// long lists, many claims, deep claims, long texts
#[cfg(feature = "r01")]
#[no_mangle]
pub extern "C" fn r01_many() {
    let entry = || variant("Claim::Entry", Default("ClaimDefinition".to_string()));
    let n = [3, 4, 5, 7, 8, 9, 16, 33][sym::choose("n", sym::by_tier(7, 8))];
    let mut ids: Vec<String> = (0..n).map(|i| format!("credential {i}")).collect();
    match sym::choose("what", 4) {
        0 => {
            let at = sym::choose("at", n);
            ids[at] = "c".repeat(n) + &sym::ascii_upto("id", 1, 1);
            let got = crate::create_offer_request(quote! { { "credential_issuer": "i", "credential_configuration_ids": [#(#ids),*] } });
            let want = object(
                "CreateOfferRequest",
                vec![
                    ("credential_issuer", text("i")),
                    ("subject_id", Absent),
                    ("credential_configuration_ids", List(ids.into_iter().map(Text).collect())),
                    ("grant_types", Absent),
                    ("tx_code_required", Bool(false)),
                    ("send_type", constant("SendType::ByVal")),
                ],
            );
            expect(&got, &want, "an offer request has all the credentials that were written");
        }
        k => {
            let (subject, claims, types) = match k {
                1 => {
                    // nested n deep
                    let n = n.min(9);
                    let (mut t, mut w) = (quote! { {} }, entry());
                    for i in 0..n {
                        let k = format!("level {i}");
                        t = quote! { { #k: #t } };
                        w = Map(BTreeMap::from([(k, w)]));
                        if i + 1 < n {
                            w = variant("Claim::Set", w);
                        }
                    }
                    (t, w, vec!["A".to_string()])
                }
                2 => (quote! { { #(#ids: {}),* } }, Map(ids.iter().map(|i| (i.clone(), entry())).collect()), vec!["A".to_string()]),
                _ => (quote! { {} }, Map(BTreeMap::new()), ids),
            };
            let got = crate::credential_request(quote! { {
                "credential_issuer": "i", "access_token": "t", "format": "jwt_vc_json",
                "credential_definition": { "type": [#(#types),*], "credentialSubject": #subject }
            } });
            let def = object("CredentialDefinition", vec![("context", Absent), ("type_", some(List(types.into_iter().map(Text).collect()))), ("credential_subject", some(claims))]);
            let want = object(
                "CredentialRequest",
                vec![
                    ("credential_issuer", text("i")),
                    ("access_token", text("t")),
                    ("credential", variant("CredentialIssuance::Format", variant("Format::JwtVcJson", object("ProfileW3c", vec![("credential_definition", def)])))),
                    ("proof", Absent),
                    ("credential_response_encryption", Absent),
                ],
            );
            expect(&got, &want, "a credential request has all the types and claims that were written");
        }
    }
}

/// a valid request of each kind
fn valid(kind: usize) -> Vec<(&'static str, Ts)> {
    let mut m: Vec<(&'static str, Ts)> = vec![];
    let keys: &[&'static str] = match kind {
        0 => {
            m.push(("credential_configuration_ids", quote! { ["a"] }));
            &["credential_issuer"]
        }
        1 => &AUTH,
        2 => {
            m.push(("grant_type", quote! { #PRE }));
            &["credential_issuer", "pre-authorized_code"]
        }
        3 => {
            m.push(("grant_type", quote! { "authorization_code" }));
            &["credential_issuer", "code", "code_verifier"]
        }
        _ => &["credential_issuer", "access_token", "credential_identifier"],
    };
    m.extend(keys.iter().map(|k| (*k, quote! { #k })));
    m
}
fn expand(kind: usize, t: Ts) -> Ts {
    match kind {
        0 => crate::create_offer_request(t),
        1 => crate::authorization_request(t),
        2 | 3 => crate::token_request(t),
        _ => crate::credential_request(t),
    }
}
fn refuse(kind: usize, t: Ts, label: &str) -> Ts {
    // the compiler reports a panic of a macro as an error: that refuses the request as well
    sym::phase_panic_ok("expand");
    let got = expand(kind, t);
    sym::phase("judge");
    sym::check(refused(&got), label);
    got
}
/// a required field is missing: refused, naming the field
#[cfg(feature = "r02")]
#[no_mangle]
pub extern "C" fn r02_missing() {
    let kind = sym::choose("kind", 5);
    let mut m = valid(kind);
    let (k, _) = m.remove(sym::choose("missing", m.len()));
    sym::check(!refused(&expand(kind, braces(&valid(kind), false))), "a request with all required fields is built");
    let got = refuse(kind, braces(&m, false), "a request without a required field is refused");
    sym::check(mentions(&got, k), "the error names the field that is missing");
    sym::cover("refused");
}
/// a field no request of this kind has, under any short name
#[cfg(feature = "r02")]
#[no_mangle]
pub extern "C" fn r02_unknown() {
    let kind = sym::choose("kind", 5);
    let mut m = valid(kind);
    // what some kind of request has, but not this one; what looks like a comment or an extension
    const NAMES: [&str; 44] = [
        "credential_issuer", "subject_id", "credential_configuration_ids", "grant_types", "tx_code_required", "send_type", "response_type", "client_id",
        "code_challenge", "code_challenge_method", "redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state",
        "authorization_details", "grant_type", "code", "code_verifier", "pre-authorized_code", "tx_code", "access_token", "credential_identifier",
        "format", "credential_definition", "proof", "credential_response_encryption", "client_assertion", "client_secret", "nonce", "",
        "comment", "_comment", "x-extension", "x_extension", "$schema", "@context", "locations", "type", "proofs", "Client_Id", "state ",
    ];
    const TAKES: [&[&str]; 5] = [
        &["subject_id", "grant_types", "tx_code_required", "send_type"],
        &["redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state", "authorization_details"],
        &["client_id", "tx_code", "authorization_details"],
        &["client_id", "redirect_uri", "authorization_details"],
        // ways of naming the credential that the identifier takes precedence over
        &["format", "credential_definition", "proof", "credential_response_encryption"],
    ];
    let s = match sym::choose("name", 3) {
        0 => (sym::concretize(sym::range("name", 32, 126) as u64) as u8 as char).to_string(),
        1 => format!("credential_issuer{}", sym::concretize(sym::range("name", 32, 126) as u64) as u8 as char),
        _ => NAMES[sym::choose("other", NAMES.len())].to_string(),
    };
    sym::assume(!TAKES[kind].contains(&s.as_str()));
    sym::assume(m.iter().all(|(k, _)| *k != s));
    let t = braces(&m, false);
    m.clear();
    let TokenTree::Group(g) = t.into_iter().next().unwrap() else { unreachable!() };
    let inner = g.stream();
    let (v, _) = either(s == "nonce", "v");
    let first = sym::flip("first");
    let all = if first { quote! { { #s: #v, #inner } } } else { quote! { { #inner, #s: #v } } };
    refuse(kind, all, "a request with a field it does not have is refused");
    sym::cover("refused");
}
/// values a request cannot have
#[cfg(feature = "r02")]
#[no_mangle]
pub extern "C" fn r02_values() {
    let odd = sym::ascii_upto("v", 0, 2);
    let other = |t: &str, s: &str| {
        sym::assume(s != t);
    };
    let detail = |b: Ts| quote! { [{ #b }] };
    let defn = quote! { "credential_definition": { "type": ["A"] } };
    let (kind, k, v): (usize, &'static str, Ts) = match sym::choose("case", 23) {
        0 => (0, "credential_configuration_ids", quote! { [] }),
        1 => (0, "credential_configuration_ids", quote! { #odd }),
        2 => (0, "grant_types", quote! { [#odd] }),
        3 => (0, "grant_types", quote! { [#PRE, #odd] }),
        4 => (0, "grant_types", quote! { #PRE }),
        5 => (2, "grant_type", quote! { #odd }),
        6 => (3, "grant_type", quote! { some_grant }),
        7 => (1 + sym::choose("of", 3), "authorization_details", quote! { #odd }),
        8 => (1 + sym::choose("of", 3), "authorization_details", quote! { [#odd] }),
        9 => (1 + sym::choose("of", 3), "authorization_details", detail(quote! { "credential_configuration_id": "a" })),
        10 => {
            other("openid_credential", &odd);
            (1 + sym::choose("of", 3), "authorization_details", detail(quote! { "type": #odd, "credential_configuration_id": "a" }))
        }
        11 => (1 + sym::choose("of", 3), "authorization_details", detail(quote! { "type": "openid_credential" })),
        12 => (1 + sym::choose("of", 3), "authorization_details", detail(quote! { "type": "openid_credential", "format": #odd, #defn })),
        13 => (1 + sym::choose("of", 3), "authorization_details", detail(quote! { "type": "openid_credential", "format": "jwt_vc_json" })),
        14 => (1 + sym::choose("of", 3), "authorization_details", detail(quote! { "type": "openid_credential", "format": "jwt_vc_json", "credential_definition": { "credentialSubject": {} } })),
        15 => (1 + sym::choose("of", 3), "authorization_details", detail(quote! { "type": "openid_credential", "format": "jwt_vc_json", "credential_definition": #odd })),
        16 => (1 + sym::choose("of", 3), "authorization_details", detail(quote! { "type": "openid_credential", "credential_configuration_id": "a", "credential_definition": { "credentialSubject": #odd } })),
        17 => (4, "proof", quote! { #odd }),
        18 => (4, "proof", quote! { { "proof_type": #odd, "jwt": "j" } }),
        19 => (4, "proof", quote! { { "jwt": "j" } }),
        20 => (4, "proof", quote! { { "proof_type": "jwt" } }),
        21 => (4, "credential_identifier", quote! { { "a": #odd } }),
        _ => (1, "client_id", quote! { { "a": #odd } }),
    };
    let mut m = valid(kind);
    m.retain(|(n, _)| *n != k);
    m.push((k, v));
    refuse(kind, braces(&m, sym::flip("reverse")), "a request with a value it cannot have is refused");
    sym::cover("refused");
}
/// what is not an object of members is refused
#[cfg(feature = "r02")]
#[no_mangle]
pub extern "C" fn r02_syntax() {
    let kind = sym::choose("kind", 5);
    let TokenTree::Group(g) = braces(&valid(kind), false).into_iter().next().unwrap() else { unreachable!() };
    let inner = g.stream();
    let t = match sym::choose("case", 17) {
        8 => quote! { { #inner } x },
        9 => quote! { { #inner } , },
        10 => quote! { { #inner } { } },
        11 => quote! { { , #inner } },
        12 => quote! { { #inner , , } },
        13 => quote! { { #inner ; } },
        14 => quote! { { #inner "state": "x" } },
        15 => quote! { { #inner, "state": "x" "y" } },
        16 => quote! { ( #inner ) },
        0 => quote! {},
        1 => inner,
        2 => quote! { [#inner] },
        3 => quote! { { #inner, state } },
        4 => quote! { { #inner, "state" } },
        5 => quote! { { #inner, "state": } },
        6 => quote! { { #inner, "state" => "x" } },
        _ => quote! { { #inner, state: "x" } },
    };
    refuse(kind, t, "what is not an object is refused");
    sym::cover("refused");
}

/// a member within a member is missing: refused, naming it
#[cfg(feature = "r02")]
#[no_mangle]
pub extern "C" fn r02_missing_nested() {
    let detail = |b: Ts| quote! { [{ #b }] };
    let of = 1 + sym::choose("of", 3);
    let (kind, k, v, name): (usize, &'static str, Ts, &str) = match sym::choose("case", 8) {
        0 => (of, "authorization_details", detail(quote! { "credential_configuration_id": "a" }), "type"),
        1 => (of, "authorization_details", detail(quote! { "type": "openid_credential" }), "credential_configuration_id"),
        2 => (of, "authorization_details", detail(quote! { "type": "openid_credential", "format": "jwt_vc_json" }), "credential_definition"),
        3 => (of, "authorization_details", detail(quote! { "type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {} }), "type"),
        4 => (4, "proof", quote! { { "jwt": "j" } }, "proof_type"),
        5 => (4, "proof", quote! { { "proof_type": "jwt" } }, "jwt"),
        6 => (4, "format", quote! { "jwt_vc_json" }, "credential_definition"),
        _ => (4, "format", quote! { "jwt_vc_json", "credential_definition": {} }, "type"),
    };
    let mut m = valid(kind);
    m.retain(|(n, _)| *n != k && (k != "format" || *n != "credential_identifier"));
    m.push((k, v));
    let got = refuse(kind, braces(&m, false), "a request that lacks a required member is refused");
    sym::check(mentions(&got, name), "the error names the member that is missing");
    sym::cover("refused");
}
/// a member that is given twice: refused, not resolved silently
#[cfg(feature = "r02")]
#[no_mangle]
pub extern "C" fn r02_repeated() {
    let same = sym::flip("same value");
    let twice = |k: &str, v: &str| {
        let w = if same { v.to_string() } else { format!("{v}{}", sym::ascii("w", 1)) };
        quote! { #k: #v, #k: #w }
    };
    let of = 1 + sym::choose("of", 3);
    let detail = |b: Ts| quote! { [{ #b }] };
    let (kind, k, v): (usize, &'static str, Ts) = match sym::choose("where", 8) {
        0 => {
            let kind = sym::choose("kind", 5);
            let m = valid(kind);
            let (k, v) = m[sym::choose("member", m.len())].clone();
            let TokenTree::Group(g) = braces(&m, sym::flip("reverse")).into_iter().next().unwrap() else { unreachable!() };
            let inner = g.stream();
            let w = if same { v } else { let s = sym::ascii("w", 1); quote! { #s } };
            let t = if sym::flip("first") { quote! { { #k: #w, #inner } } } else { quote! { { #inner, #k: #w } } };
            refuse(kind, t, "a request that has a member twice is refused");
            sym::cover("refused");
            return;
        }
        1 => {
            let t = twice("credential_configuration_id", "a");
            (of, "authorization_details", detail(quote! { "type": "openid_credential", #t }))
        }
        2 => {
            let t = twice("a", "x");
            (of, "authorization_details", detail(quote! { "type": "openid_credential", "credential_configuration_id": "a", "credential_definition": { "credentialSubject": { #t } } }))
        }
        3 => (of, "authorization_details", detail(quote! { "type": "openid_credential", "credential_configuration_id": "a", "credential_definition": { "credentialSubject": { "a": {}, "b": {}, "a": { "c": {} } } } })),
        4 => (of, "authorization_details", detail(quote! { "type": "openid_credential", "type": "openid_credential", "credential_configuration_id": "a" })),
        5 => (of, "authorization_details", detail(quote! { "type": "openid_credential", "credential_configuration_id": "a", "credential_definition": { "type": ["A"], "type": ["B"] } })),
        6 => {
            let t = twice("jwt", "j");
            (4, "proof", quote! { { "proof_type": "jwt", #t } })
        }
        _ => {
            let t = twice("client_id", "c");
            let kind = 2 + sym::choose("grant", 2);
            let TokenTree::Group(g) = braces(&valid(kind), false).into_iter().next().unwrap() else { unreachable!() };
            let inner = g.stream();
            refuse(kind, quote! { { #inner, #t } }, "a request that has a member twice is refused");
            sym::cover("refused");
            return;
        }
    };
    let mut m = valid(kind);
    m.push((k, v));
    refuse(kind, braces(&m, false), "a request that has a member twice is refused");
    sym::cover("refused");
}

/// the roots of the paths in an expansion
fn roots(t: &Ts, out: &mut Vec<String>) {
    let t: Vec<TokenTree> = t.clone().into_iter().collect();
    let colon = |i: Option<usize>| i.and_then(|i| t.get(i)).is_some_and(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ':'));
    for (i, x) in t.iter().enumerate() {
        match x {
            TokenTree::Group(g) => roots(&g.stream(), out),
            TokenTree::Ident(n) if colon(Some(i + 1)) && colon(Some(i + 2)) && !(colon(i.checked_sub(1)) && colon(i.checked_sub(2))) => out.push(n.to_string()),
            TokenTree::Ident(n) if n == "use" => out.push("use".into()),
            _ => {}
        }
    }
}
/// an expansion can be used without importing anything
#[cfg(feature = "r01")]
#[no_mangle]
pub extern "C" fn r01_paths() {
    let kind = sym::choose("kind", 5);
    let mut m = valid(kind);
    let opt: &[(&'static str, Ts)] = &match kind {
        0 => vec![("grant_types", quote! { [#PRE, "authorization_code"] }), ("tx_code_required", quote! { true }), ("subject_id", quote! { "s" })],
        1..=3 => vec![("authorization_details", quote! { [
            { "type": "openid_credential", "credential_configuration_id": "a", "credential_definition": { "type": ["A"], "credentialSubject": { "a": { "b": {} } } } },
            { "type": "openid_credential", "format": "jwt_vc_json", "credential_definition": { "type": ["A"], "credentialSubject": { "a": {} } } }] }), (if kind == 2 { "tx_code" } else { "redirect_uri" }, quote! { "r" })],
        _ => vec![("proof", quote! { { "proof_type": "jwt", "jwt": "j" } })],
    };
    for o in opt {
        if sym::flip("given") {
            m.push(o.clone());
        }
    }
    if kind == 4 && sym::flip("format") {
        m.retain(|(k, _)| *k != "credential_identifier");
        m.push(("format", quote! { "jwt_vc_json" }));
        m.push(("credential_definition", quote! { { "type": ["A"], "credentialSubject": { "a": {} } } }));
    }
    let got = expand(kind, braces(&m, false));
    sym::check(!refused(&got), "the request is built");
    let mut r = vec![];
    roots(&got, &mut r);
    const KNOWN: [&str; 19] = ["vercre_issuer", "vercre_openid", "std", "core", "alloc", "crate", "Into", "From", "Default", "String", "Option", "Vec", "ToString", "Some", "None", "Box", "Iterator", "FromIterator", "ToOwned"];
    // an expansion that imports what it needs itself is fine
    let ok = r.iter().any(|n| n == "use") || r.iter().all(|n| KNOWN.contains(&n.as_str()));
    sym::check(ok, "an expansion names what it uses by its full path");
    sym::cover("built");
}
