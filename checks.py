"""Which harness entries decide which property, within which bounds."""
import json, os, re

V = os.path.dirname(os.path.abspath(__file__))
FILTER = ['vercre', 'h_macros']  # functions listed as encoded in the evidence: those of the repository

ENGINE_NOTES = [
    'memory allocation does not fail; hash seeds are fixed; one thread',
    'memchr and serde_json are built from their own sources with vectorised scans replaced by byte loops (models/memchr, models/serde_json)',
]
NOTES = {
    'fastrand': 'fastrand draws are unconstrained symbols within the drawn range (models/fastrand); natively they are read from the counterexample',
    'sha2': 'SHA-2 is an uninterpreted function during solving, the real algorithm on replay (models/sha2)',
}


NOTES.update({
    'env': 'the provider (state store, metadata, subject data, key registry) is a table the harness fills; every provider call succeeds at once unless the harness says otherwise',
    'jose': 'signing and verifying (vercre-infosec, fetched from elsewhere and not part of this repository) is a model: a token verifies exactly if it was made with the key its kid publishes (models/vercre-infosec, models/vercre-did)',
    'chrono': 'the clock is a variable of the harness (models/chrono)',
    'uuid': 'uuids are fresh, pairwise different texts (models/uuid)',
})

# entries explored with one symbolic draw at a time when exploring them with all draws symbolic takes too long
NARROW = {'g01_form', 'g01_entropy', 'g01_sequence', 'g02_pin', 'g02_sequence', 'k01_verifier', 'k01_verifier_fresh'}


def flow(*names):
    return [('flow', n) for n in names]


def core(*names):
    return [('core', n) for n in names]


PROPS = {
    'U01': dict(
        entries=core('u01_flat', 'u01_nested', 'u01_list', 'u01_shapes', 'u01_map', 'u01_unicode', 'u01_wide_unicode', 'u01_numbers', 'u01_long', 'u01_deep', 'u01_sparse', 'u01_keys', 'u01_forms', 'u01_top', 'u01_many', 'u01_huge', 'u01_chars', 'u01_names'),
        bounds='texts of 0..3 ASCII characters (4 thorough; nested 2 and 3) at one or two positions at a time, all other positions fixed; runs of 7..300 plain or special characters followed by any one; every character of two, three and four bytes; every form of value within every other, three deep; lists and maps of 0..3 and 12; arbitrary names of 0..2 characters; any subset of five optional fields; integers of every width at their limits, 9 floats, every 8-bit integer, booleans, characters; tuple, newtype, unit and flattened structs, bytes, enums of every tagging; up to 300 parameters, nesting of up to 33 levels, texts of up to 4097 characters; texts of 0..1 characters under names of 2..51 characters',
        outside='top-level text fields beginning with [ or { (the format cannot tell them from nested values); texts other than those; numbers, flags and absent values at the top level (the format writes them as text)',
    ),
    'U02': dict(
        entries=core('u02_flat', 'u02_nested', 'u02_scalars', 'u02_long', 'u02_shapes', 'u02_unicode', 'u02_forms', 'u02_map'),
        bounds='flat and nested structs, text of 0..4 (6 thorough; nested 3 and 4) arbitrary ASCII characters per probed field; any character in every form of value and after runs of 7..300 others; ten non-ASCII characters followed by any ASCII one; every 8-bit integer, boolean and ASCII character, boundary values of the wider integers; every form of struct and enum serde has; maps at the top level',
        outside='longer texts',
    ),
    'U03': dict(
        entries=core('u03_foreign', 'u03_foreign_wide', 'u03_foreign_nested', 'u03_foreign_long', 'u03_total', 'u03_plain', 'u03_repeat', 'u03_order', 'u03_names'),
        bounds='any query text of up to 3 (4 thorough) ASCII bytes after fixed prefixes that reach each decoder state; foreign percent-encodings (upper and lower case, over-encoded) of 0..2 characters, of runs of 7..300 followed by any one, and of every character of three or four bytes; plain texts of up to 12 (20) characters; any two values of a repeated parameter, its name escaped or not, used or not, decoded to a struct or a map; parameters in eight orders; two parameters of equal, similar or arbitrary names with up to 130 others between them',
        outside='other queries; non-ASCII raw bytes; escapes that are not UTF-8',
    ),
    'K01': dict(
        entries=core('k01_verifier', 'k01_verifier_fresh'), notes=['fastrand'],
        bounds='every random draw symbolic; every verifier length the code can pick',
        outside='quality of the random generator itself',
    ),
    'K02': dict(
        entries=core('k02_challenge', 'k02_binding'), notes=['sha2'],
        bounds='verifiers of 43..128 characters with a symbolic character at a chosen position; every digest value',
        outside='collision resistance of SHA-256',
    ),
    'G01': dict(
        entries=core('g01_form', 'g01_entropy', 'g01_sequence'), notes=['fastrand'],
        bounds='every kind of token, first, second or after up to 2 (4 thorough) others, every outcome of every random draw', outside='quality of the random generator itself',
    ),
    'G02': dict(
        entries=core('g02_pin', 'g02_sequence'), notes=['fastrand'],
        bounds='first, second or after up to 10 others, every outcome of every random draw', outside='quality of the random generator itself',
    ),
    'B01': dict(
        entries=core('b01_kind', 'b01_quota', 'b01_quota_add', 'b01_mixed', 'b01_long', 'b01_default'),
        bounds='texts of 0..3 ASCII characters and of 20..320 of which the last is arbitrary, collections of 0..3 and 5..40 items, collections of up to 3 strings or objects in any mix, up to 3 (4 thorough) additions', outside='other texts and collections; object types that serde also reads from a list of strings',
    ),
    'D01': dict(
        entries=core('d01_conjunction', 'd01_annotated', 'd01_many', 'd01_presence', 'd01_no_fields', 'd01_no_claims', 'd01_large'),
        bounds='0..4 fields, each required, explicitly required or optional, its claim present or absent, with or without a filter over symbolic 1-character texts; two fields over the same or different claims with ids, names, purposes, retention flags; nine fields one of which has any of six filters; claims of every JSON kind; up to 40 fields',
        outside='more fields',
    ),
    'D02': dict(
        entries=core('d02_string', 'd02_array', 'd02_number', 'd02_bool', 'd02_other', 'd02_long', 'd02_unicode', 'd02_number_forms', 'd02_long_list', 'd02_elements'),
        bounds='constants and text claims of 0..5 (8 thorough) symbolic ASCII characters; texts of 7..300 characters that differ in any one character, replaced, added or removed; 20 texts that case folding, normalization or trimming confuses; list claims of 0..4 (5 thorough) elements and of up to 20 texts; 16 numbers and texts near theirs; booleans, null, objects; lists of lists and objects, lists of 100',
        outside='other texts and lists',
    ),
    'D03': dict(
        entries=core(*[f'd03_p{i}' for i in range(8)], 'd03_list', 'd03_list_text', 'd03_long', 'd03_invalid', 'd03_syntax', 'd03_wide', 'd03_elements'),
        bounds='eight pattern shapes (literal, anchored, class, repetition, alternation, optional, dot, empty) against every text of 0..3 (5 thorough) ASCII characters and list claims of 0..2 of them; 12 patterns against the punctuation of a list; texts of 7..600 characters with an arbitrary one in them; characters of several bytes; 27 further patterns (spaces, classes, escapes, boundaries, flags) against every text of 0..2 (3) characters; invalid patterns',
        outside='other patterns (the regex crate is executed, but the pattern is fixed)',
    ),
    'D04': dict(
        entries=core('d04_date', 'd04_datetime', 'd04_time', 'd04_mutated', 'd04_year', 'd04_other', 'd04_zone', 'd04_fraction', 'd04_notation'),
        bounds='calendar dates over six common, leap and century years, months 00..19, every day 00..39 and 90..99; every year of the 20th and 21st century and every century; every HH:MM:SS digit and zone; fractions of up to 30 digits; 24 other notations; any one ASCII character replaced, inserted or removed in six dates and times; non-text claims; other texts of 0..4 (5) characters',
        outside='leap seconds (second 60), a space or lower case letters as separators (left to the application by RFC 3339); non-ASCII texts (see D05)',
    ),
    'D05': dict(
        entries=core('d05_filters', 'd05_wide', 'd05_path', 'd05_path_forms', 'd05_path_escape', 'd05_pattern', 'd05_pattern_forms', 'd05_dates', 'd05_definition', 'd05_submission'),
        bounds='every filter kind against every JSON kind of claim, characters of several bytes in claims, constants, patterns, formats and paths; path texts of 0..3 (4 thorough) and pattern texts of 0..2 arbitrary ASCII characters after fixed prefixes; 22 forms of path and 16 of pattern with any character in them; escapes cut off or malformed anywhere; 12 odd dates with any character beside them; 56 malformed definitions; submission texts with 0..3 (4, 5) arbitrary characters at five positions',
        outside='other texts; nesting so deep that the stack overflows',
    ),
    'D06': dict(
        entries=core('d06_any_path', 'd06_select', 'd06_several', 'd06_many', 'd06_large', 'd06_names', 'd06_kinds'),
        bounds='1..4 alternative paths per field, each hit or miss, symbolic claim values; eight paths with the right one at any place; member, nested, index, wildcard, descendant, slice, union and filter selectors over 0..3 values; up to 70 paths or values selected; paths of up to 30 levels, quoted names', outside='invalid paths (the field is then not met); other JSONPath syntax',
    ),
    'D07': dict(
        entries=core('d07_definition', 'd07_submission', 'd07_names', 'd07_many'),
        bounds='definitions and submissions with each optional part present or absent, texts of 0..2 (3 thorough) symbolic characters or 1..200 of which the last is, in each member; empty collections; one full and one bare definition against the JSON the specification gives; up to 8 descriptors', outside='members the specification has and the code does not',
    ),
}

FLOW = ['env', 'jose', 'chrono', 'uuid', 'fastrand']
T = 'times in whole seconds'
PROPS.update({
    'I01': dict(
        entries=flow('i01_exact', 'i01_once', 'i01_scope', 'i01_faults'), notes=FLOW,
        bounds='one offer with or without PIN; the right code or another; entered PINs of 5..7 arbitrary ASCII characters; known, unknown, empty and absent clients; every second from 0 to 4000 after the offer; both server settings; 2 (3 thorough) attempts in sequence with 0..400 s between them; offers of one or two credentials to two subjects, 7 selections; 3 retries with a failing store operation at any of 9 positions, the process dying with it or not',
        outside='longer histories; faults other than of the state store; two requests running at the same time',
    ),
    'I02': dict(
        entries=flow('i02_exact', 'i02_challenge', 'i02_once', 'i02_scope', 'i02_faults'), notes=FLOW + ['sha2'],
        bounds='the right code or another; clients, redirect URIs and verifiers right, wrong, empty, absent (a wrong verifier differs in 2 arbitrary characters); challenges that begin or end with the digest, differ in their last character or are the verifier; every second from 0 to 4000; 2 (3) attempts in sequence; two authorizations of four kinds side by side; faults as for I01',
        outside='longer histories; two requests running at the same time',
    ),
    'I03': dict(
        entries=flow('i03_exact'), notes=FLOW + ['sha2'],
        bounds='an admissible request with any one or two of the listed deviations (client, redirect URI, challenge method, response type, issuer state, subject, details, scope, claims, formats), with or without a live offer, pushing required or not',
        outside='three deviations at once',
    ),
    'I04': dict(
        entries=flow('i04_token', 'i04_proof', 'i04_proofs', 'i04_lives'), notes=FLOW + ['sha2'],
        bounds='tokens of four grants, other handles or 3 arbitrary characters in their place; 7 ways of naming a credential; every second from 0 to 4000; proof type, nonce (2 arbitrary characters, or one more than the nonce has), kid, key and audience (as many arbitrary characters as the Issuer has, or one more at either end) in every combination; 0..2 (3 thorough) proofs of eight kinds, up to 5 with at most one bad; a pending credential asked for, another one obtained or refused and the first fetched at any seconds',
        outside='creation time of the proof (not checked by the code); cryptography itself',
    ),
    'I05': dict(
        entries=flow('i05_contents'), notes=FLOW,
        bounds='two credentials, by identifier or by format with six claim selections; two holders; statuses kept or not; names in two languages or none; every second from 0 to 500 after the token',
        outside='claims of other shapes; the mdoc format (see M01)',
    ),
    'I06': dict(
        entries=flow('i06_nonces', 'i06_handles'), notes=FLOW,
        bounds='3 (4 thorough) credential requests with the first, latest or other nonces, honest or forged, 0..400 s apart; every kind of handle the Issuer gives out in place of every other',
        outside='longer histories',
    ),
    'I07': dict(
        entries=flow('i07_history', 'i07_lives', 'i07_foreign', 'i07_faults'), notes=FLOW + ['sha2'],
        bounds='3 (4 thorough) polls by the owner, another token holder or a stranger, 0..400 s apart, the data becoming ready before any of them, the nonce being replaced in between; asking, another request and a poll at any seconds; other handles and 3 arbitrary characters as transaction id; a failing store operation at any of 12 positions',
        outside='longer histories',
    ),
    'I08': dict(
        entries=flow('i08_par', 'i08_foreign'), notes=FLOW + ['sha2'],
        bounds='deviations as for I03; use 0..2000 s after pushing; other handles and 4 arbitrary characters as reference',
        outside='a reference used several times (the code allows it)',
    ),
    'I09': dict(
        entries=flow('i09_create', 'i09_fetch', 'i09_faults'), notes=FLOW,
        bounds='three subjects, five selections of credentials, five of grants, three server settings, PIN or not, by value or by reference; 2 (3 thorough) fetches of two offers, references of 3 arbitrary characters, 0..400 s apart; a failing store operation at any of 6 positions',
        outside='longer histories',
    ),
    'I10': dict(
        entries=flow('i10_notification', 'i10_register', 'i10_metadata'), notes=FLOW,
        bounds='two notifications of every event for ids given out, spent or arbitrary (3 characters); registration with a token, another handle or 3 arbitrary characters; Issuers known or of 3 arbitrary characters',
        outside='longer histories',
    ),
    'I11': dict(
        entries=flow('i11_claims'), notes=FLOW + ['sha2'],
        bounds='every subset of three supported claims, an unsupported one, a claim asked for as a set, five subsets of a nested set, nested claims mandatory or not, by configuration id or by format',
        outside='deeper nesting',
    ),
    'V01': dict(
        entries=flow('v01_request', 'v01_fetch', 'v01_metadata'), notes=FLOW,
        bounds='0..2 descriptors, known and unknown Verifiers, both device flows; references right or of 3 arbitrary characters, four client ids, every second from 0 to 2000',
        outside='more descriptors',
    ),
    'V02': dict(
        entries=flow('v02_exact', 'v02_empty', 'v02_audience', 'v02_holder', 'v02_embedded', 'v02_faults'), notes=FLOW,
        bounds='a request for two credentials; any one or two of 27 deviations of the response; response 0..1000 s after the request, a credential\'s end of validity -400..400 s from it; no, empty and nonsense tokens (4 arbitrary characters); 3 retries with a failing store operation at any of 9 positions',
        outside='three deviations at once; credential formats other than JWT',
    ),
    'H01': dict(
        entries=flow('h01_steps', 'h01_accept', 'h01_claims', 'h01_verified'), notes=FLOW,
        bounds='6 (7 thorough) steps in any order, at most two of them refused; offers of one or two credentials, six acceptances; four selections of claims; seven credentials sent by the Issuer, honest or not; wallet against the real Issuer endpoints',
        outside='longer histories; several flows at once',
    ),
    'H02': dict(
        entries=flow('h02_deferred', 'h02_notify', 'h02_metadata'), notes=FLOW,
        bounds='3 (4 thorough) steps of polling or saving with readiness at any point; storing and notifying failing or not; four forms of display metadata and five of offers',
        outside='longer histories; the last of several notification ids is notified only',
    ),
    'H03': dict(
        entries=flow('h03_authorize'), notes=FLOW + ['sha2'],
        bounds='flows from an offer or on the wallet\'s own account, three selections, three scopes, known and unknown flows',
        outside='offers with an authorization server other than the Issuer',
    ),
    'H04': dict(
        entries=flow('h04_present', 'h04_forged', 'h04_filters'), notes=FLOW,
        bounds='wallets holding none, one or both of two credentials; four requests of one or two descriptors, by value (query string) or by reference; 4 steps in any order; seven forged or incomplete request objects; three kinds of filter',
        outside='more descriptors; definitions by reference',
    ),
})

PROPS.update({
    'E01': dict(
        entries=flow('e01_json', 'e01_query'), notes=FLOW,
        bounds='every error code; descriptions of 0..2 (3 thorough) arbitrary ASCII characters for one code, 0..1 for the others; hints and nonces likewise; intervals and lifetimes at their limits',
        outside='longer and non-ASCII descriptions',
    ),
    'O01': dict(
        entries=flow('o01_offer', 'o01_authorization', 'o01_token', 'o01_credential', 'o01_metadata', 'o01_presentation', 'o01_query'), notes=FLOW,
        bounds='27 kinds of message; any one member at a time in each of its forms with texts of 0..1 arbitrary ASCII characters, the other optional members all present or all absent',
        outside='contacts of clients; longer texts; members the types do not know; the form encoding of web frameworks',
    ),
    'S01': dict(
        entries=flow('s01_list', 's01_range', 's01_encoding', 's01_error'), notes=FLOW + ['bitvec'],
        bounds='two statuses of any purposes at any of four adjacent places at the start, in the middle or at the end of the list, any value, sizes 1, 2, 3, 4, 8; any 64-bit index for a single status; error details of 0..2 (3) arbitrary ASCII characters',
        outside='the same index twice for one purpose; reading a list (todo!() in the code)',
    ),
    'S02': dict(
        entries=flow('s02_credential'), notes=FLOW,
        bounds='any one of issuer, list number, base URL (0..2 characters, with or without a slash), encoded list and time to live varied',
        outside='longer texts',
    ),
    'W01': dict(
        entries=flow('w01_credential', 'w01_presentation', 'w01_text', 'w01_language'), notes=FLOW,
        bounds='16 members of a credential and 6 of a presentation, one at a time in each of its forms with texts of 0..2 (3) arbitrary ASCII characters, the others all present or all absent; 0..3 (4) arbitrary characters after each of five prefixes as the text of a presentation; 0..3 values in three languages',
        outside='longer texts; dates are numbers in the model of chrono',
    ),
    'W02': dict(
        entries=flow('w02_credential', 'w02_presentation', 'w02_builders'), notes=FLOW,
        bounds='credentials and presentations as in W01, three formats, five forged and genuine signatures; 0..2 contexts and types, 0..3 subjects, 0..2 credentials',
        outside='embedded proofs (known finding of V02)',
    ),
    'M01': dict(
        entries=flow('m01_digests'), notes=FLOW + ['mdoc'],
        bounds='one or two name spaces of one to three claims, four kinds of value; the first three random draws any of six values, extremes and repetitions included',
        outside='more claims; the CBOR encoding (replaced by JSON)',
    ),
    'C01': dict(
        entries=flow('c01_issuer', 'c01_verifier'), notes=FLOW + ['sha2', 'turns'],
        bounds='two requests of twelve kinds (offer, both grants right and wrong, credential right, wrong and deferred, authorization, plain and pushed, pushing, fetching an offer) by two subjects, or two presentations right and wrong; every order of their store operations',
        outside='more than two requests at the same time; changes of turn other than at store operations; the wallet',
    ),
    'C02': dict(
        entries=flow('c02_codes', 'c02_offers', 'c02_deferred', 'c02_responses', 'c02_nonces'), notes=FLOW + ['sha2', 'turns'],
        bounds='two equal requests, in every order of their store operations, with a store that removes an entry for one caller only',
        outside='stores whose removal does not tell whether there was something to remove; more than two requests',
    ),
    'R01': dict(
        entries=[('macros', 'r01_' + n) for n in ('offer', 'authorization', 'authorization_details', 'token', 'token_details', 'credential', 'layout', 'many', 'paths')], notes=['macro'],
        bounds='every field of the four requests present or absent, members in 16 orders on each level, with or without trailing commas; text values of 0..1 (2 thorough) arbitrary characters, or any of seven other forms of expression; lists of 0..3 and up to 16 (33) items, both grants, both ways of naming a credential, claims nested up to 9 levels',
        outside='type errors, which the compiler reports for the expansion; @context and locations; longer lists and texts',
    ),
    'R02': dict(
        entries=[('macros', 'r02_' + n) for n in ('missing', 'missing_nested', 'unknown', 'values', 'syntax', 'repeated')], notes=['macro'],
        bounds='each required field left out; an added field named by any one character, the name of another with any character added, or one of 44 names; 23 fields given values they do not take, texts of 0..2 arbitrary characters among them; members of members left out; members given twice on each level; 17 malformed notations',
        outside='definitions beside a credential identifier; type errors, which the compiler reports for the expansion',
    ),
})
NOTES['turns'] = 'requests served at the same time change turns at store operations, which are atomic'
NOTES['bitvec'] = 'a bit slice is the list of writes to it, of which a window is read back; compression is the identity (models/bitvec, models/flate2)'
NOTES['mdoc'] = 'CBOR is JSON, the random draws are those the harness gives, digests are a plain function of their input (models/ciborium, models/coset, models/rand, models/sha2)'
NOTES['macro'] = 'the macros crate is compiled as an ordinary library, with token streams of proc-macro2 instead of the compiler\'s; an expansion is evaluated by the harness as the struct literal it is'


def assumptions(prop):
    return ENGINE_NOTES + [NOTES[n] for n in prop.get('notes', [])]


def flags(entry):
    """uf: paths depend on an uninterpreted function, so sampled paths are not replayed natively"""
    return {'uf'} if entry in ('k02_binding', 'k02_challenge', 'i02_exact', 'i02_once') else set()


def panic_only(entry):
    """entries whose only assertion is that nothing panics"""
    return entry == 'u03_total' or entry.startswith('d05_')


_cov = None


def expected_covers(entry):
    """labels each entry must reach (recorded on the unchanged tree): the guard against vacuous runs"""
    global _cov
    if _cov is None:
        with open(os.path.join(V, 'covers.json')) as f:
            _cov = json.load(f)
    return _cov.get(entry, [])


def known_findings():
    out = []
    with open(os.path.join(V, 'known-findings.txt')) as f:
        for l in f:
            m = re.match(r'known: property=(\S+) entry=(\S+) label="([^"]*)" (.*)$', l.strip())
            if m:
                out.append(dict(zip(('property', 'entry', 'label', 'what'), m.groups())))
    return out
