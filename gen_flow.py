IS = 'vercre-issuer/src/'
VE = 'vercre-verifier/src/'
HO = 'vercre-holder/src/'
OI = 'crates/openid/src/issuer.rs'
TK, CR, AU, DF = IS + 'token.rs', IS + 'credential.rs', IS + 'authorize.rs', IS + 'deferred.rs'
ST = IS + 'state.rs'
HIST = ('inputs', 'histories')

PROPS += [
    P('I01', 'A pre-authorized code gives one token, on the right PIN, in time',
      'The token endpoint gives an access token for a pre-authorized code exactly when the code was issued with an offer no more than five minutes ago, the PIN equals the offer\'s (and is absent where none was issued), the client is known, or absent where anonymous access is allowed, and the server supports the grant; any attempt with a code, successful or not, spends it. No sequence of attempts or failing store operations yields two tokens. The token is worth exactly the credentials of the offer, narrowed to those asked for; asking for more is refused.',
      'for every code, PIN, client, time and sequence of attempts',
      'The tests redeem one code once; wrong PINs, replays, lapsed codes and requests for more than was offered are a matter of every combination.',
      [TK, ST], [('grant verification', TK + ': verify'), ('exchange', TK + ': process'), ('narrowing', TK + ': retain_details')], HIST,
      [('Offered state', 'what a pre-authorized code stands for, and its PIN', ST), ('Validated state', 'what an access token stands for', ST)]),
    P('I02', 'An authorization code gives one token, to the client that got it, with PKCE',
      'The token endpoint gives an access token for an authorization code exactly when the code is alive, the client and the redirect URI are those of the authorization and the code verifier\'s S256 digest is the challenge. Any attempt with a code spends it, a code of one kind never works as the other kind, and no sequence of attempts or failing store operations yields two tokens. The token is worth exactly the credentials that were authorized.',
      'for every code, client, redirect URI, verifier, time and sequence of attempts',
      'The tests redeem one code once with everything right.',
      [TK, ST, 'crates/core/src/pkce.rs'], [('grant verification', TK + ': verify'), ('PKCE comparison', TK)], HIST, [('Authorized state', 'client, redirect URI, challenge and items behind a code', ST)]),
    P('I03', 'An authorization code is given for admissible requests only',
      'The authorization endpoint gives a code exactly when the client is known and allowed the grant, the redirect URI is registered for it, the challenge method is S256, the response type is supported, the issuer state (if any) is of a live offer to the same subject, and every requested credential and scope is one the Issuer supports and the subject may have; a server that requires pushed requests refuses others. The response carries the request\'s state and goes to the redirect URI of the request. A refused request changes nothing, and an offer is used at most once.',
      'for every combination of deviations from an admissible request',
      'The tests try a handful of valid requests; each of the checks must hold on its own and none may be disabled by another part of the request.',
      [AU, ST], [('request verification', AU + ': verify'), ('code issue', AU + ': process')], ('inputs', 'configurations')),
    P('I04', 'Credentials are given on a live token and a fresh proof of possession only',
      'The credential endpoint gives a credential exactly when the access token was issued, or last got a new nonce, at most 15 minutes ago, it was granted for that credential, and every proof (at least one, where the configuration requires proofs) is a signed proof token for this Issuer whose signature verifies against the key its kid names, over the current unexpired nonce. The credential is bound to the DID that signed. A refused proof is answered with a new nonce which alone is accepted afterwards.',
      'for every token, credential, proof content, signer, audience, nonce and time',
      'The tests issue on one valid proof; what must be shown is that nothing else works.',
      [CR, ST], [('request verification', CR + ': verify'), ('authorized credential lookup', CR + ': authorized')], HIST, [('Validated state', 'token, granted credentials, nonce and expiry', ST)]),
    P('I05', 'An issued credential says what the Issuer holds about that subject',
      'An issued credential is signed by the Issuer, names it as issuer, has the configured type and names, is dated when issued and is about the DID that made the proof. It carries exactly the subject\'s stored data for that credential, narrowed to the claims the request names, unchanged, and the status entry of that credential where statuses are kept.',
      'for every way of requesting, subset of claims, holder and time',
      'The snapshots cover one credential per format.',
      [CR, 'crates/w3c-vc/src/model/vc.rs', 'crates/w3c-vc/src/proof/jose.rs'], [('credential assembly', CR + ': w3c_vc'), ('claim selection', CR + ': dataset'), ('signing', 'crates/w3c-vc/src/proof.rs: create')]),
    P('I06', 'Nonces are single-use and no other handle works as token or code',
      'Along every sequence of credential requests each nonce is accepted at most once, only while it is the latest and at most ten minutes old, and none is issued twice. Notification ids, transaction ids, references, nonces and codes never work as access tokens, and none of them nor an access token works as a code.',
      'for every sequence of requests and every handle the Issuer has given out',
      'All handles share one store keyed by text; confusion shows only when a handle of one kind is used in another kind\'s place.',
      [CR, TK, ST], [('nonce rotation', CR + ': issue_response, invalid_proof'), ('stage check', CR + ', ' + TK)], HIST, [('State.stage', 'kind of the handle the state is kept under', ST)]),
    P('I07', 'A deferred credential is given once, when ready, to who asked for it',
      'While a subject\'s data is pending a credential request gives a transaction id and no credential. The deferred endpoint then answers issuance-pending until the data is ready, and gives the credential exactly once, only for the access token it was requested with and only while transaction and token are alive, whatever other requests are made in between. Only transaction ids stand for pending credentials.',
      'for every sequence of polls by every party, times and moment of readiness',
      'The tests poll once, after the data is ready.',
      [DF, CR], [('deferral', CR + ': defer_response'), ('polling', DF + ': process')], ('histories', 'schedules'), [('Deferred state', 'the credential request a transaction id stands for', ST)]),
    P('I08', 'A pushed authorization request gives a code exactly as an unpushed one does',
      'A request can be pushed exactly when the same request would be admissible at the authorization endpoint. Using the reference within ten minutes has the effect the pushed request had when made directly, also where the server requires pushing. No other text and no handle of another kind works as a reference.',
      'for every deviation from an admissible request, time and reference text',
      'One request is pushed by the tests and never used.',
      [IS + 'par.rs', AU], [('pushing', IS + 'par.rs'), ('reference lookup', AU)], HIST, [('PushedAuthorization state', 'the request behind a reference', ST)]),
    P('I09', 'Offers contain what was asked for and can be fetched once',
      'An offer is made exactly for supported credentials and grants and, when pre-authorized, for a subject who may have them; it lists the credentials and grants asked for, says whether a PIN is needed and never contains the PIN. An offer sent by reference can be fetched once, only by its reference, only from the Issuer that made it and for five minutes.',
      'for every request, reference, Issuer and sequence of fetches',
      'The tests create two offers and fetch one once.',
      [IS + 'create_offer.rs', IS + 'credential_offer.rs'], [('offer creation', IS + 'create_offer.rs'), ('offer by reference', IS + 'credential_offer.rs')], HIST, [('Pending state', 'the offer behind a reference', ST)]),
    P('I10', 'Notifications, registrations and metadata answer exactly who may ask',
      'A notification is accepted exactly once for each notification id the Issuer has given out and for nothing else, and leaves the token usable. A client registers only with a live handle of the Issuer and is stored as answered. Metadata is given for the Issuer or server asked for and only if there is one, in the standard form.',
      'for every id, token, event and sequence',
      'One call of each is tested.',
      [IS + 'notification.rs', IS + 'register.rs', IS + 'metadata.rs', IS + 'oauth_server.rs'], [('notification', IS + 'notification.rs'), ('registration', IS + 'register.rs'), ('metadata', IS + 'metadata.rs')], HIST),
    P('I11', 'Requested claims are supported and complete, and are what is issued',
      'A request that names claims is accepted exactly when all of them, at every depth, are supported by the credential and all mandatory ones are among them. The issued credential has the claims that were authorized and no others.',
      'for every subset of supported, unsupported and nested claims, by configuration id or by format',
      'The tests name all claims or a single one; unsupported and missing ones, and what is issued in the end, are not looked at.',
      [OI, AU, TK], [('claim verification', OI + ': CredentialConfiguration::verify_claims'), ('use of it', AU + ', ' + TK)]),
    P('V01', 'A presentation request asks for what the Verifier asked for',
      'A request is made exactly for a known Verifier and at least one credential; it carries all input descriptors unchanged, in order, a nonce, state and definition id of its own, and says where to respond. A request sent by reference can be fetched for five minutes, signed by the Verifier, only under its own reference and client id; fetching changes nothing. Metadata is given for known Verifiers only.',
      'for every list of descriptors, device flow, reference, client and time',
      'Two requests are created and one is fetched by the tests.',
      [VE + 'create_request.rs', VE + 'request_object.rs', VE + 'metadata.rs'], [('request creation', VE + 'create_request.rs'), ('request by reference', VE + 'request_object.rs')], HIST, [('State', 'the request a response is checked against', VE + 'state.rs')]),
    P('V02', 'A presentation is accepted exactly when it answers a live request in full',
      'A response is accepted exactly when it names a request that is alive and unanswered, every presentation\'s signature verifies, its nonce is the request\'s and its audience the Verifier, the submission answers that definition, each input descriptor is mapped to one credential in an allowed format that satisfies its constraints, and each of these credentials is signed by its issuer, unexpired and held by the presenter. A request is answered once; a refused response leaves it open.',
      'for every combination of up to two deviations from an admissible response, and every time',
      'One valid response is tested; acceptance of anything else cannot be seen by it.',
      [VE + 'response.rs', 'crates/w3c-vc/src/proof.rs', 'crates/w3c-vc/src/proof/jose.rs', MT], [('response verification', VE + 'response.rs: verify'), ('proof verification', 'crates/w3c-vc/src/proof.rs: verify')], HIST, [('State', 'the request a response is checked against', VE + 'state.rs')]),
    P('H01', 'The wallet gets, keeps and shows exactly what its holder accepted',
      'In whatever order its steps are called, the wallet does each exactly when it is its turn; a step out of turn changes nothing and asks nothing of the Issuer. It requests exactly the credentials accepted of those offered, keeps a credential only if the Issuer\'s signature verifies and only when the holder says so, keeps it as issued, and forgets the flow when it is finished or cancelled.',
      'for every sequence of steps, acceptance and credential sent by the Issuer',
      'The tests walk each flow once in the right order against a friendly Issuer.',
      [HO + 'issuance.rs', HO + 'issuance/accept.rs', HO + 'issuance/token.rs', HO + 'issuance/credentials.rs', HO + 'issuance/save.rs'], [('flow state', HO + 'issuance.rs: Status'), ('acceptance', HO + 'issuance/accept.rs'), ('credential requests', HO + 'issuance/credentials.rs')], HIST, [('Issuance', 'the flow between steps', HO + 'issuance.rs')]),
    P('H02', 'Deferred credentials reach the wallet once, and the Issuer hears of it',
      'A credential that is pending stays in the wallet\'s flow until it is given; each credential is stored exactly once, whatever the order of polling and saving. The Issuer is told once what became of an issued credential: accepted, failed to store, or deleted. Odd but well-formed offers and metadata are refused or handled, never a crash, and a refused offer leaves nothing behind.',
      'for every interleaving of polling, saving and readiness, every store or notification failure and odd metadata',
      'The tests poll once and save once, and never let the store fail.',
      [HO + 'issuance/deferred.rs', HO + 'issuance/save.rs', HO + 'issuance/cancel.rs', HO + 'issuance/offer.rs'], [('deferral', HO + 'issuance/deferred.rs'), ('saving', HO + 'issuance/save.rs'), ('cancelling', HO + 'issuance/cancel.rs')], ('histories', 'schedules', 'inputs'), [('Issuance', 'the flow between steps', HO + 'issuance.rs')]),
    P('H03', 'Authorization-code flows obtain what was accepted, with the wallet\'s own PKCE',
      'The wallet obtains authorization exactly for what was accepted of an offer, or for what it asks for on its own account by detail or scope, and redeems the code itself with a fresh verifier matching its challenge. It then receives exactly those credentials.',
      'for every way of starting the flow and every selection',
      'Each way is tested once with one selection.',
      [HO + 'issuance/authorize.rs', HO + 'issuance/credentials.rs'], [('authorization', HO + 'issuance/authorize.rs')], HIST),
    P('H04', 'The wallet presents what matches, to who asked, when its holder agrees',
      'The wallet shows the credentials that match each part of a request, sends nothing before its holder agrees, and then sends one signed presentation made for that request (its nonce, audience, state, definition and response address) with a matching credential, as issued, for each part. A request whose signature does not verify is refused and leaves nothing behind. The Verifier accepts what the wallet sends.',
      'for every set of held credentials, request, way of sending it and order of steps',
      'The tests present one credential for one request, twice.',
      [HO + 'presentation/request.rs', HO + 'presentation/authorize.rs', HO + 'presentation/present.rs'], [('request handling', HO + 'presentation/request.rs'), ('presentation', HO + 'presentation/present.rs')], HIST, [('Presentation', 'the flow between steps', HO + 'presentation.rs')]),
    P('C01', 'Requests served at the same time do not disturb each other',
      'A request of one client comes to exactly what it comes to when served alone, whatever request of another client is served at the same time and however their store operations interleave: the same offers, codes, tokens, credentials and verdicts, for the same subject, and handles that work afterwards.',
      'for every pair of kinds of request and every interleaving of their store operations within the bounds',
      'The tests serve one request at a time.',
      [TK, CR, AU, IS + 'create_offer.rs', IS + 'credential_offer.rs', VE + 'response.rs'], [('endpoints', IS + 'lib.rs'), ('presentation responses', VE + 'response.rs')], ('inputs', 'schedules'), [('state store', 'what is kept between requests', 'crates/openid/src/provider.rs: StateStore')]),
    P('C02', 'What is good once is good once, also for requests served at the same time',
      'Of two equal requests served at the same time exactly one succeeds, however their store operations interleave, where the second would be refused after the first: redeeming a code, fetching an offer, fetching a deferred credential, answering a presentation request, using a nonce. The state store is taken to be one that removes an entry for one caller only and tells the other.',
      'for every interleaving of the store operations of two equal requests within the bounds',
      'The tests serve one request at a time; replays in the same moment are how codes are stolen.',
      [TK, CR, DF, IS + 'credential_offer.rs', VE + 'response.rs'], [('purging of what was used', TK + ', ' + DF + ', ' + VE + 'response.rs: StateStore::purge')], ('inputs', 'schedules'), [('state store', 'what is kept between requests', 'crates/openid/src/provider.rs: StateStore')]),
    P('E01', 'Every error reaches the client as its code and what it says',
      'Any OpenID error, written as JSON, serialised, or sent as parameters of a redirect, carries exactly its code and its description (and nonce or interval, where it has one), whatever characters these contain. None is lost, merged with another or turned into something that is no error response.',
      'for every error and every description',
      'The tests write three errors with plain descriptions.',
      ['crates/openid/src/error.rs'], [('error formats', 'crates/openid/src/error.rs: Error')]),
    P('O01', 'Protocol messages survive the wire',
      'Every message of the issuance and presentation protocols (offers, authorization, token and credential requests and responses, metadata, presentation requests and responses) in the form the specifications give it is read without loss and written back as it was, as JSON and, for those sent in URLs, as a query string. An authorization request is recognised as an object or a reference in either form.',
      'for every message kind, optional member and form of value',
      'Six messages are tested in one form each.',
      [OI, 'crates/openid/src/oauth.rs', 'crates/openid/src/verifier.rs'], [('issuance messages', OI), ('presentation messages', 'crates/openid/src/verifier.rs'), ('client and server metadata', 'crates/openid/src/oauth.rs')]),
    P('S01', 'A status list says exactly what was logged, in the published form',
      'A status list has, for each credential logged for its purpose, that credential\'s status in its own place and nothing anywhere else, whatever the statuses of its neighbours or for other purposes; an index outside the list is refused. It is published as the multibase form of the compressed bits, and status errors are written as the specification says, whatever their detail.',
      'for every position, size, value, purpose and neighbouring status',
      'Nothing in the repository tests the list.',
      ['crates/status/src/bitstring.rs'], [('list construction', 'crates/status/src/bitstring.rs: bitstring'), ('errors', 'crates/status/src/bitstring.rs: Error')]),
    P('S02', 'A published status list is a signed credential about that list',
      'The credential made for a status list is signed by its Issuer and names the Issuer, the address of the list under the base URL, its purpose, its time to live and exactly the encoded list it was given.',
      'for every issuer, list, base URL, purpose, encoded list and time to live',
      'Nothing in the repository tests it.',
      ['crates/status/src/bitstring.rs'], [('status list credential', 'crates/status/src/bitstring.rs: credential')]),
    P('W01', 'Credentials and presentations survive reading and writing',
      'A verifiable credential or presentation in any form the data model allows (single or several values, texts or objects, names in several languages, status entries, proofs) is read without loss and written back as it was; a presentation definition is applied to the credential as written. Any text offered as a presentation is read or refused, never a crash.',
      'for every member, form of value and text',
      'Two fixed credentials are read by the tests.',
      ['crates/w3c-vc/src/model/vc.rs', 'crates/w3c-vc/src/model/vp.rs', 'crates/w3c-vc/src/model/types.rs'], [('credential model', 'crates/w3c-vc/src/model/vc.rs'), ('presentation model', 'crates/w3c-vc/src/model/vp.rs'), ('language values', 'crates/w3c-vc/src/model/types.rs')]),
    P('W02', 'A signed credential or presentation verifies as what was signed, or not at all',
      'A token made for a credential or presentation names its issuer or holder, subject, id, times, audience and nonce as the content does; it verifies exactly when it is signed with the key its header names, and then gives back what was signed. Builders give exactly what was put into them and refuse what lacks a required member.',
      'for every content, format and forged signature',
      'The tests sign and verify one credential.',
      ['crates/w3c-vc/src/proof.rs', 'crates/w3c-vc/src/proof/jose.rs', 'crates/w3c-vc/src/model/vc.rs', 'crates/w3c-vc/src/model/vp.rs'], [('proofs', 'crates/w3c-vc/src/proof.rs: create, verify'), ('token claims', 'crates/w3c-vc/src/proof/jose.rs'), ('builders', 'crates/w3c-vc/src/model/vc.rs: VcBuilder')]),
    P('M01', 'A mobile document carries its claims and a digest of each under an id of its own',
      'A mobile document has every claim of the data set once, in its name space, and its signed security object lists the digest of exactly each of them under the claim\'s own id; ids are unique within a name space and below 2^31, whatever the random source gives.',
      'for every data set and every outcome of the random source',
      'One document is made by the tests and only read back.',
      ['crates/iso-mdl/src/lib.rs', 'crates/iso-mdl/src/mso.rs', 'crates/iso-mdl/src/mdoc.rs'], [('document construction', 'crates/iso-mdl/src/lib.rs: to_credential'), ('digest ids', 'crates/iso-mdl/src/mso.rs: DigestIdGenerator')]),
]
