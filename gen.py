#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
import checks

UE = 'crates/core/src/urlencode.rs'
MT = 'crates/dif-exch/src/matcher.rs'
DX = 'crates/dif-exch/src/lib.rs'
MC = 'crates/macros/src/'


def P(id, title, statement, qtext, why, files, mech, over=('inputs',), state=()):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': qtext}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]}}


PROPS = [
    P('U01', 'URL-encoding a value and decoding it gives the value back',
      'Encoding any request value as a query string and decoding the string as the same type yields an equal value: every text, list, map, tuple, enum variant, nested object and optional field survives, and numbers and flags within nested values do, whatever characters the texts contain. The encoding of one field never changes how the fields around it are read.',
      'for every value of the supported shapes and every text content',
      'The tests encode two fixed structs and decode one; no character that needs escaping, no list or tuple before another field and no map is among them.',
      [UE], [('URL encoder', UE + ': to_string, Serializer'), ('URL decoder', UE + ': from_str, Deserializer')]),
    P('U02', 'URL-encoded output is safe: field content cannot add parameters',
      'The text produced by URL-encoding contains only characters allowed in a query, and a standard form decoder reading it finds exactly one parameter per top-level field, in order, with that field\'s own content. No field content can end its parameter, start another one or alter a neighbouring one.',
      'for every field content',
      'The only tested contents are letters, digits and a URL; the encoder must escape every reserved character at every nesting depth.',
      [UE], [('percent-encoding of text', UE + ': serialize_str'), ('separators', UE + ': SerializeStruct/SerializeSeq/SerializeMap')]),
    P('U03', 'URL decoding is total and faithful to what was sent',
      'Decoding any query text returns a value or an error and never crashes; a parameter\'s decoded value is exactly its percent-decoded text, however the sender chose to escape it. A query that repeats a parameter is refused rather than resolved silently.',
      'for every query text',
      'One well-formed query is decoded by the tests; malformed input, over-escaped input and repeated parameters are never tried.',
      [UE], [('query parsing and percent-decoding', UE + ': from_str')]),
    P('K01', 'PKCE code verifiers meet RFC 7636 and carry all drawn randomness',
      'Every generated PKCE code verifier is 43 to 128 characters long and uses only unreserved characters. Two verifiers coincide only if every random draw behind them coincides, and at least 256 bits of randomness are drawn.',
      'for every outcome of the random source',
      'There is no test of the generator; a test would sample a few outputs, and a rare out-of-range index or an ignored draw stays invisible.',
      ['crates/core/src/pkce.rs'], [('verifier generation', 'crates/core/src/pkce.rs: code_verifier')], over=('inputs',)),
    P('K02', 'A PKCE challenge is the unpadded base64url SHA-256 of its verifier',
      'The code challenge of a verifier is the unpadded base64url encoding of the SHA-256 digest of the complete verifier text, so it depends on every character of the verifier and on nothing else.',
      'for every verifier and every digest value',
      'Tests can compare a few vectors; a challenge computed over a truncated or normalised verifier agrees on them.',
      ['crates/core/src/pkce.rs'], [('challenge', 'crates/core/src/pkce.rs: code_challenge')]),
    P('G01', 'Codes, tokens, nonces and ids are unguessable and URL-safe',
      'Every generated authorization code, access token, nonce, issuer state, notification id, transaction id and request token is a non-empty URL-safe text. Each carries at least 128 bits of randomness, and two of them coincide only if the randomness drawn for both coincides.',
      'for every outcome of the random source',
      'A few sampled tokens always look random; loss of entropy or aliasing of draws is a statement about all outcomes.',
      ['crates/core/src/gen.rs'], [('token generation', 'crates/core/src/gen.rs')]),
    P('G02', 'A generated PIN is always six decimal digits, all equally likely',
      'A generated transaction code is always exactly six decimal digits, including when its numeric value is small, and every one of the million codes can occur.',
      'for every outcome of the random source',
      'A missing leading zero appears once in ten samples or once in a million; sampling cannot show it never happens.',
      ['crates/core/src/gen.rs'], [('PIN generation', 'crates/core/src/gen.rs: tx_code')]),
    P('B01', 'String-or-object and one-or-many values keep content and form',
      'A value that may be a string or an object, or one item or several, is written back in the form and with the content it was read in. Adding an item to a collection keeps all earlier items in order and appends the new one.',
      'for every content and every number of items',
      'No test touches these types; single-item and empty collections are the corner cases.',
      ['crates/core/src/lib.rs'], [('Kind, Quota', 'crates/core/src/lib.rs')]),
    P('D01', 'Presentation constraints hold exactly when every field does',
      'A credential satisfies a set of constraints exactly when each field is met: a required field must be present and pass its filter, an optional field may be absent but must pass its filter when present. No fields means nothing is required, and claims that cannot be read satisfy nothing.',
      'for every combination of fields, in every order',
      'The tests check one field at a time; skipped, reordered or ignored fields are never visible.',
      [MT], [('conjunction over fields', MT + ': Constraints::satisfied')], over=('inputs', 'configurations')),
    P('D02', 'A constant filter accepts exactly the claims with that value',
      'A constant filter accepts a text claim exactly when its content equals the constant, a list claim exactly when some text element does, and a number or boolean exactly when its JSON text does. It never accepts null, an object, or a text that merely contains or resembles the constant.',
      'for every constant and claim value',
      'One constant and one list claim are tested.',
      [MT], [('constant comparison', MT + ': Field::matched')]),
    P('D03', 'A pattern filter accepts exactly the texts its pattern matches',
      'A pattern filter accepts a text claim exactly when the regular expression matches the content of the claim, with anchors meaning the ends of the content, and a list claim exactly when some element of it matches. An invalid pattern accepts nothing and does not fail the process.',
      'for every claim text, over a family of patterns',
      'One pattern is tested, unanchored.',
      [MT], [('pattern matching', MT + ': Field::matched')]),
    P('D04', 'A date filter accepts exactly existing dates and times',
      'A date filter accepts exactly the texts YYYY-MM-DD that denote a day that exists, and a date-time filter exactly the RFC 3339 date-times with an existing day, time of day and a zone. Claims that are not text are refused.',
      'for every date, time and corruption of one',
      'One date is tested; month lengths, leap years and ranges are not.',
      [MT], [('format validation', MT + ': Field::matched')]),
    P('D05', 'Hostile presentation definitions and submissions cannot crash a wallet',
      'Whatever paths, filters, formats and patterns a presentation definition contains and whatever the claims are, checking it returns a verdict or an error and never panics. Parsing any text as a presentation submission likewise returns a value or an error.',
      'for every definition, claim and submission text',
      'Tests use well-formed definitions; the definition comes from an untrusted party.',
      [MT, DX], [('matcher', MT), ('submission parsing', DX + ': PresentationSubmission::from_str')]),
    P('D06', 'Any one of a field\'s paths suffices and selects what it names',
      'A field with valid paths is met when at least one of its paths selects at least one value that passes the filter, independent of the order of the paths and of what else they select, miss or fail. A path selects exactly the values it names, at any depth.',
      'for every list of paths and every claim values',
      'Tests use one path per field.',
      [MT], [('path alternatives', MT + ': Field::matched')], over=('inputs', 'configurations')),
    P('D07', 'Definitions and submissions survive JSON unchanged',
      'A presentation definition or submission written as JSON and read back equals the original, and its members carry the names and values the Presentation Exchange specification gives them.',
      'for every combination of optional parts and texts',
      'No test serialises them.',
      [DX], [('serde model', DX)], over=('inputs', 'configurations')),
    P('R01', 'A request macro builds exactly the request that was written',
      'A request written in JSON notation with one of the request macros (create_offer, authorization, token, credential) expands to the request value with exactly the fields, lists, claims and nested objects written, each with the value written for it. Fields that are left out are absent or have their documented default; the order of the fields and a trailing comma change nothing, and nothing has to be imported.',
      'for every subset and order of fields and every field value within the notation',
      'The tests expand a single request per macro; most of the fields and their combinations are in none of them.',
      [MC + f for f in ('create_offer.rs', 'authorization.rs', 'token.rs', 'credential.rs', 'parse.rs')],
      [('notation', MC + 'parse.rs: Json'), ('offer', MC + 'create_offer.rs'), ('authorization', MC + 'authorization.rs'), ('token', MC + 'token.rs'), ('credential', MC + 'credential.rs')], over=('inputs', 'configurations')),
    P('R02', 'A request macro refuses what it cannot honour',
      'A request written with a request macro that lacks a required field, has a member the request does not have (nested objects aside) or has one twice, gives a field a value of a kind it does not take or breaks the notation does not compile, and the error for a missing field names it. It is never silently accepted with the offending part dropped.',
      'for every such deviation and every unknown name',
      'The tests have well-formed requests only.',
      [MC + f for f in ('create_offer.rs', 'authorization.rs', 'token.rs', 'credential.rs', 'parse.rs')],
      [('unknown fields', MC + 'parse.rs: Json::check_consumed'), ('required fields', MC + 'parse.rs: Json'), ('notation', MC + 'parse.rs')], over=('inputs',)),
]
exec(open(os.path.join(checks.V, 'gen_flow.py')).read()) if os.path.exists(os.path.join(checks.V, 'gen_flow.py')) else None
NOT_APPLICABLE = globals().get('NOT_APPLICABLE', [])

TECH = 'symbolic execution of the compiled code (LLVM IR) with Z3; bounded'
NOTE = ('All paths of the real code (compiled from /repo on each run) within the stated bounds are explored with symbolic inputs; branches and assertions are decided by Z3 (or by an exact byte-table procedure cross-checked with Z3). '
        'Counterexamples are replayed on a native build before being reported, sampled paths are replayed to validate the engine. Trusted: rustc, the engine, Z3, the listed stubs. ')


def main():
    with open(os.path.join(checks.V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            assert len(__import__('re').findall(r'[.](?: |$)', p['statement'])) <= 3, p['id']
            f.write(json.dumps(p) + '\n')
    ids = [p['id'] for p in PROPS]
    na = {n['property'] for n in NOT_APPLICABLE}
    assert len(set(ids)) == len(ids)
    assert set(checks.PROPS) | na == set(ids), set(checks.PROPS) ^ set(ids)
    m = {
        'version': 1,
        'setup_cmd': 'python3 setup.py',
        'hooks': {'guard': 'none (no hooks in /repo)', 'enable': 'the harness crates under /verif/harness depend on /repo\'s crates by path and use only their public interface', 'source_commits': []},
        'checks': [{'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough', 'evidence_file': f'evidence/{i}.json',
                    'technique': TECH, 'level': 'model_checking', 'level_note': NOTE + 'Bounds: ' + checks.PROPS[i]['bounds'] + '. Outside: ' + checks.PROPS[i].get('outside', '') + '.'} for i in ids if i in checks.PROPS],
        'not_applicable': NOT_APPLICABLE,
    }
    with open(os.path.join(checks.V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)


main()
