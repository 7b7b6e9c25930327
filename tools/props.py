# Property texts and manifest notes; tools/gen.py turns them into properties.jsonl and MANIFEST.json.
DO = 'core/do/to2/'
RV = 'core/rv/'
SH = 'core/shared/'
EXPL = 'explicit enumeration of choice sequences on the real handlers'
HAR = 'The harness runs the real handlers over an in-memory badger database and speaks the wire protocol with its own CBOR and crypto code; trusted: Go crypto, badger, the harness encoders.'
PROPS = [
dict(id='P01', title='TO2 message order and device authentication',
 statement='In the owner onboarding protocol the owner service answers a message with its protocol reply only when the earlier steps of that same session were completed in order and the device proved, over that session\'s nonce, possession of the device key named in the voucher. Every other message (skipped, repeated or out of order step, wrong nonce, wrong device key, tampered or wrongly encrypted body, unknown token) is answered with a protocol error and leaves the session\'s progress unchanged. Voucher entries may be asked for in any order and again; Done is accepted only after the owner has delivered all its service info, and a finished session answers nothing more. A correct device that follows the protocol is always answered and ends with the device nonce echoed.',
 over=['histories','inputs'], quant='all sequences of TO2 messages (10 kinds, each well formed or wrong) up to depth 7-9 on one session',
 why='Tests never drive the handlers; ordering bugs need specific message histories.',
 files=[DO+'common.go', DO+'listener-to2-60-HelloDevice.go', DO+'listener-to2-64-ProveDevice.go', DO+'listener-to2-70-Done.go'],
 mech=[('previous command check per handler', DO+'listener-to2-*.go'), ('device signature and nonce check', DO+'listener-to2-64-ProveDevice.go'), ('decryption under the session key', DO+'common.go')],
 technique='explicit-state search: reference state machine explored to a depth, every trace replayed on the real handlers',
 note='Exhaustive over the message alphabet to the stated depth for one session (state-deduplicated). '+HAR),
dict(id='P02', title='Owner service info is delivered completely, once, in order',
 statement='In an authenticated onboarding session the device receives every service info item the owner configured for that device exactly once and in order, with the done flag set on the message carrying the last item and on no earlier one, regardless of how the device splits its own service info over messages. Items configured for other devices are never delivered, and after the done flag further service info messages are refused with a protocol error. A device whose collected service info lacks a mandatory item, or carries an undecodable one, is refused.',
 over=['histories','inputs','configurations'], quant='all ways to split the device items over messages, item omissions, owner configurations with 0 and 2 items, up to depth 8',
 why='The only test calls the mandatory-item filter; chunking and counters are history dependent.',
 files=[DO+'listener-to2-68-DeviceServiceInfo.go', DO+'common.go', SH+'sims.tools.go', SH+'sims.reg.go'],
 mech=[('device item accumulation', DO+'listener-to2-68-DeviceServiceInfo.go'), ('owner item send counter', DO+'listener-to2-68-DeviceServiceInfo.go'), ('mandatory item filter', SH+'sims.reg.go')],
 technique='exhaustive enumeration of service info histories against a reference queue', note='All histories within the bounds on the real handlers. '+HAR),
dict(id='P03', title='Rendezvous registration accepts exactly valid owner claims',
 statement='The rendezvous service stores an owner\'s redirect blob for a device only when the voucher is valid, the blob is signed by the voucher\'s final owner key, the blob names the hash of the submitted registration data, every address has an IP or a DNS name, and the registration carries the nonce issued for that very session. Anything else is refused with a protocol error and leaves what is stored for the device unchanged. An accepted registration is stored verbatim for the voucher\'s device and lives for the granted number of seconds, the smaller of the requested time and the server limit of 30 days.',
 over=['inputs','histories','configurations'], quant='every single-node mutation of the registration message for all owner key types, and all sequences of hello/register of two sessions, devices and owners to depth 5',
 why='No test covers the rendezvous handlers.',
 files=[RV+'listener-to0.go', RV+'ownersign.db.go', SH+'voucher.go'],
 mech=[('nonce, signature, hash and voucher checks', RV+'listener-to0.go'), ('storage with lifetime', RV+'ownersign.db.go')],
 technique=EXPL, note='Single-node mutations plus semantic alternatives (wrong key, wrong nonce, stale session, spliced parts) enumerated in full. '+HAR),
dict(id='P04', title='Redirect blob is released only to the proven device',
 statement='The rendezvous service releases an owner\'s redirect blob only in answer to a proof signed with the device key of the stored voucher, over the nonce issued in that session, for the device named at the start of that session. What is released is exactly the most recently accepted, unexpired registration for that device. Every other proof (other device\'s key, other session\'s nonce, another protocol\'s session, tampered or malformed proof, no registration) gets a protocol error and reveals nothing.',
 over=['inputs','histories'], quant='all interleavings of two registrations and two rendezvous sessions over two devices to depth 6, and every single-node mutation of the proof',
 why='No test covers the rendezvous handlers; freshness and isolation are history properties.',
 files=[RV+'listener-to1.go', RV+'session.db.go', RV+'ownersign.db.go'],
 mech=[('session nonce and signature check', RV+'listener-to1.go')],
 technique=EXPL, note='Exhaustive within the bounds. '+HAR),
dict(id='P05', title='Protocol sessions are isolated from each other',
 statement='Two protocol sessions running at the same time, whatever their protocols and devices and however their messages interleave, each behave exactly as if the other did not exist. A message bearing another session\'s token, or a token issued by another protocol, is never accepted as part of this session\'s protocol, and never changes the state of any session that its sender does not hold the keys of.',
 over=['schedules','histories'], quant='all interleavings of the message sequences of two sessions drawn from TO0, TO1 and TO2 (same or different device), and each message with each other token at each stage',
 why='Needs interleaved histories of two sessions; no test opens even one.',
 files=[RV+'session.db.go', 'core/do/dbs/session.db.go', RV+'listener-to0.go', RV+'listener-to1.go', DO+'common.go'],
 mech=[('random session id, per-session record', 'core/do/dbs/session.db.go'), ('protocol tag check', RV+'listener-to1.go')],
 technique='exhaustive interleaving of two sessions on the real handlers, differential against the sequential run', note='All message-level interleavings. '+HAR),
dict(id='P06', title='Protocol sessions and registrations always expire on time',
 statement='After any message history every protocol session held by the rendezvous and owner services carries an expiry no later than ten minutes after the session began, whether or not it was updated in between; every stored registration expires after the granted time. Once a session or registration has expired its token or device is treated as unknown and refused with a protocol error.',
 over=['histories'], quant='all message histories of one session to depth 7 with the stored expiry read after every message, plus every message sent after removal of its session or registration',
 why='Expiry is a property of stored state after updates; no test reads it.',
 files=['core/do/dbs/session.db.go', RV+'session.db.go', RV+'ownersign.db.go'],
 mech=[('record lifetime on create and update', 'core/do/dbs/session.db.go')],
 technique='explicit-state search over message histories with a stored-expiry invariant', note='Expiry is read from the database record, not waited for. '+HAR),
dict(id='P07', title='Voucher validation accepts exactly unbroken ownership chains',
 statement='A voucher passes validation if and only if its header, device certificate chain hash, and every ownership entry (previous-item hash, header-info hash, signature by the previous owner\'s key) form one unbroken chain from the manufacturer key to the final owner key. Any reordering, omission, duplication, splice of entries or parts from another voucher, or change of a protected field is rejected with an error and never crashes. Validation accepts every correctly built voucher for every supported key type and any number of entries.',
 over=['inputs','configurations'], quant='vouchers of 1-4 entries for all key type mixes: every single-node mutation, every permutation/omission/duplication of entries, every splice of two vouchers',
 why='No test validates a voucher.',
 files=[SH+'voucher.go', SH+'signing.crypto.go', SH+'hashing.crypto.go'],
 mech=[('entry chain verification', SH+'voucher.go')],
 technique='exhaustive enumeration of a bounded voucher mutation space against a reference validator', note='The reference validator is independent code in the harness; unprotected or don\'t-care nodes are excluded by construction. '+HAR),
dict(id='P08', title='Generated test vouchers are valid or broken exactly as labelled',
 statement='A voucher generated for a positive test is always a valid voucher whose device credential and owner key match it and whose hash types are those its keys call for, for every supported key type, entry count and rendezvous configuration. A voucher generated for a negative voucher test is always rejected by voucher validation, whatever random choices the generator makes. The encoded voucher and key survive export to and import from the text format unchanged.',
 over=['inputs','configurations'], quant='all voucher test ids x key types x rendezvous lists x generator random choices (entry count, broken entry, mutation kind) enumerated through a scripted random source',
 why='Random choices make a flaky negative test invisible to sampling.',
 files=['core/device/genvoucher.go', 'core/device/genvoucher_with_provided_keys.go', 'core/device/common/common.go', SH+'conformance.go'],
 mech=[('voucher generator', 'core/device/genvoucher.go')],
 technique='exhaustive enumeration of generator choices with a scripted random source, judged by a reference validator', note='Small-integer random choices are enumerated; bulk random bytes are drawn. '+HAR),
dict(id='P09', title='Signatures verify exactly when made by that key over that content',
 statement='For every supported signature algorithm, a signature the system produces is accepted by an independent verifier and by the system itself, and a signature made by an independent signer is accepted. A signature is rejected whenever payload, protected header, signature bytes, key, or claimed algorithm differ from those signed, and malformed signatures or keys are rejected with an error and never crash. A signature checked by a certificate chain is accepted only if the certificates lead from the signing key to the last one. The same holds for the hashes and message authentication codes that bind messages together.',
 over=['inputs','configurations'], quant='all algorithm x key type x key encoding pairs, all single-byte flips and length changes of each signed part, all mutations of the public key structure, all sequences of certificates of a small hierarchy up to length 4',
 why='One algorithm is tested with fixed inputs.',
 files=[SH+'signing.crypto.go', SH+'signing.cose.go', SH+'signing.misc.go', SH+'distuff.go'],
 mech=[('signature generation and verification', SH+'signing.crypto.go')],
 technique='exhaustive enumeration of a bounded mutation matrix against an independent implementation', note='Bounded product enumeration. '+HAR),
dict(id='P10', title='Encrypted messages round trip and every tampering is refused',
 statement='For every implemented cipher suite, what the system encrypts under a session key decrypts, both by the system and by an independent implementation, to the original bytes, and the reverse; session keys are derived as specified from the shared secret and both contexts. Any change to any part of an encrypted message, or use of another key, suite or named algorithm, is refused with an error and never crashes or returns altered plaintext. No two messages share an initialization vector.',
 over=['inputs','configurations'], quant='all suites x payload lengths 0..48 and block boundaries, every single bit flip, truncation, structural mutation, cross-suite and cross-key decryption, every named algorithm',
 why='One round trip of one suite is tested.',
 files=[SH+'enc.crypto.go', SH+'ccm/ccm.go', SH+'kex.crypto.go'],
 mech=[('authenticated encryption wrapping', SH+'enc.crypto.go'), ('key derivation', SH+'kex.crypto.go')],
 technique='exhaustive enumeration of a bounded mutation space against an independent implementation', note='Bounded product enumeration. '+HAR),
dict(id='P11', title='Key exchange always agrees and refuses invalid shares',
 statement='For every key exchange suite both ends derive the same session secret as an independent implementation, for every pair of shares including those whose coordinates or shared secret begin with zero bytes. An invalid share (wrong length, point off the curve, point of another curve, degenerate value, undecryptable block) is refused with an error and never crashes.',
 over=['inputs','configurations'], quant='all suites x both roles x shares with 0/1/2 leading zero bytes in each coordinate and secret x all structural mutations of a share',
 why='Agreement for short values happens once in 128 handshakes; no test runs one.',
 files=[SH+'kex.crypto.go'], mech=[('share generation and secret derivation', SH+'kex.crypto.go')],
 technique='exhaustive enumeration of share classes against an independent implementation', note='Short-coordinate shares come from a searched key pool. '+HAR),
dict(id='P12', title='Malformed messages always get a protocol error',
 statement='Whatever bytes arrive in an FDO request at any stage of any protocol session, on any message type, the service answers: no request crashes a handler or is left without an answer. A refusal is a non-200 response with a decodable error message that names the refused message type and is delivered once, and a malformed message never yields the protocol reply of a well formed one. Requests with a wrong method, content type or missing token are refused the same way.',
 over=['inputs','histories'], quant='every single-node structural mutation, truncation and header variant of every message at its stage for all key types, and every message type at every stage with generic garbage',
 why='No handler test exists; panics hide in rarely-taken decode paths.',
 files=[SH+'error.go', SH+'transport.go', RV+'listener-to0.go', RV+'listener-to1.go', DO+'common.go'],
 mech=[('decode checks and error responses', DO+'*.go')],
 technique=EXPL, note='All single mutations of the message trees, including inside signed and encrypted parts (re-signed, re-encrypted). '+HAR),
dict(id='P13', title='Device and owner clients reject every broken server answer',
 statement='The tool\'s own device and owner protocol clients report success for a step if and only if the server\'s answer is genuine: HTTP 200 and the expected message, signed by the owner key the answer names (which the fetched and verified voucher entries must end in), fresh nonces echoed, hashes matching, entries as asked for, encryption intact. A rendezvous redirect is checked for form only, since the device cannot know its signer yet. A missing, malformed, replayed or tampered answer at any step is reported as an error, never as success and never as a crash.',
 over=['inputs','fault_sequences'], quant='every single-node mutation, status, header and transport fault of every server answer at every step of TO0, TO1 and TO2',
 why='No client test exists.',
 files=['core/device/to1/req-to1-32-ProveToRV.go', 'core/device/to2/req-to2-60-HelloDevice.go', 'core/device/to2/req-to2-64-ProveDevice.go', 'core/do/to0/common.go'],
 mech=[('answer verification', 'core/device/to2/*.go')],
 technique='exhaustive fault enumeration: one fault at every answer position of a full run', note='One deviation per run, all positions and kinds; semantic don\'t-care nodes excluded. '+HAR),
dict(id='P14', title='Device test verdicts match the device\'s behaviour',
 statement='During a device conformance run each test is recorded, durably and under the right protocol, as passed exactly when the device aborted after a deliberately broken answer (or carried on after a correct one), and as failed when it did not. Tests are issued in the listed order, each message\'s tests before the next message\'s, a fully conformant device ends with a completed run in which every test of the protocol passed, and a device that ignores a broken answer always has that test recorded as failed. Devices without a running test get untouched protocol answers.',
 over=['histories','inputs'], quant='all behaviours of a device that at each broken answer either aborts or continues (up to 2 deviations), over whole TO1 and TO2 runs',
 why='The runner is a state machine over whole protocol runs; nothing tests it.',
 files=[SH+'testcom/listener_testdir.go', SH+'testcom/listener/common.go', RV+'listener-to1.go', DO+'listener-to2-60-HelloDevice.go', DO+'listener-to2-62-GetOVNextEntry.go'],
 mech=[('listener test runner', SH+'testcom/listener/'), ('verdict recording in handlers', DO+'*.go')],
 technique='deviation-bounded exploration of device behaviours over whole runs', note='All behaviours with at most the stated number of deviations. '+HAR),
dict(id='P15', title='Device run history shows every started run exactly once',
 statement='For any sequence of starting, progressing, completing and deleting device test runs, the listed runs are exactly those started and not deleted, each exactly once with its recorded results, the one in progress first. Starting a run begins from a clean slate, deleting removes exactly the named run, and unknown ids or protocols change nothing and never crash.',
 over=['histories'], quant='all sequences of start/complete/delete/list for the three protocols to depth 6',
 why='Histories of operations; no test.',
 files=[SH+'testcom/listener/factory.go', SH+'testcom/dbs/listener.db.go', 'api/testapi/device.api.go'],
 mech=[('run bookkeeping', SH+'testcom/listener/')],
 technique='explicit-state search against a reference list model through the HTTP API', note='Exhaustive to depth. '+HAR),
dict(id='P16', title='Server test verdicts match the server\'s behaviour',
 statement='A server conformance run always finishes, and records each executed test as passed exactly when the server under test did what that test demands: a well formed protocol error for a broken message, a correct protocol answer for a good one. A fully conformant server passes every listed test; a server that wrongly accepts, wrongly refuses, answers garbage, drops the connection or breaks one message type never gets that test recorded as passed, and never crashes the tool.',
 over=['fault_sequences','configurations'], quant='all test ids of TO0, TO1 and TO2 runs x server behaviours per message type (correct, accept-all, refuse-all, garbage, empty, drop, http errors), up to one deviation',
 why='Verdict logic against misbehaving servers is never tested.',
 files=['testexec/rvt.to0.execute.go', 'testexec/rvt.to1.execute.go', 'testexec/do.to2.60.execute.go', SH+'testcom/methods.go'],
 mech=[('per test expectation', SH+'testcom/methods.go')],
 technique='exhaustive fault enumeration of the environment server per message type and call', note='One deviation per run. '+HAR),
dict(id='P17', title='Server test runs are recorded separately and completely',
 statement='Results reported for a server test run appear in that run\'s record and no other, the newest run is listed first, and a run is marked in progress exactly between its start and its end. Deleting a run removes exactly that run and its results, also while another run of the same or another instance is in progress, and operations on unknown instances or runs change nothing and never crash. A test can be created with every supported kind of owner key, a completed run has a verdict for every listed test, and an instance whose record has expired does not disturb the others.',
 over=['histories'], quant='all sequences of run/failing run/delete/expire/restart over one or two instances to depth 3-5, and every one or two operations between the turns of a run',
 why='Histories of operations; no test.',
 files=[SH+'testcom/dbs/reqt.db.go', SH+'testcom/request/rvt.db.go'], mech=[('run records', SH+'testcom/dbs/reqt.db.go')],
 technique='explicit-state search of the real store against a reference model', note='Exhaustive to depth. '+HAR),
dict(id='P18', title='API data is reachable only by the logged-in owning user',
 statement='Every management API operation on tests, runs and vouchers is refused, without any effect, unless the request carries the cookie of a live logged-in session, and succeeds on a test instance only if that instance belongs to the session\'s user. Logging out ends exactly that session at once; a failed login creates no logged-in session. A protocol session token is never usable as an API session or the reverse.',
 over=['histories','inputs'], quant='all endpoints x credential states x instance owners, and all login/logout/operation sequences to depth 5',
 why='No API test exists.',
 files=['api/testapi/rv.api.go', 'api/testapi/do.api.go', 'api/testapi/device.api.go', 'api/user.other.api.go', 'dbs/session.db.go'],
 mech=[('session and ownership check per endpoint', 'api/testapi/')],
 technique=EXPL, note='Exhaustive over the endpoint/credential product and histories to depth. '+HAR),
dict(id='P19', title='Concurrent requests lose no updates',
 statement='When requests run concurrently, the outcome is one that some one-at-a-time order of the same requests could have produced: a test instance, test run, verdict, service info item or registration whose creation was acknowledged is present afterwards, and a deleted one is gone. No interleaving makes a handler crash, deadlock or corrupt a stored record.',
 over=['schedules'], quant='all interleavings at database transaction and lock boundaries of all pairs of 21 operations with up to 2 preemptions, of triples with 1, of messages within one session, and of the first log-ins; outcomes compared with those of all one-request-at-a-time orders',
 why='Races need specific schedules.',
 files=['dbs/user.db.go', SH+'testcom/dbs/listener.db.go', SH+'testcom/dbs/reqt.db.go', 'core/do/dbs/session.db.go'],
 mech=[('read-modify-write of stored records', 'api/testapi/*.go')], hook='badger copy with scheduling points (no change in /repo)',
 technique='stateless schedule exploration of the real handlers with a preemption bound', note='Scheduling points are transaction begin, commit and contended locks. '+HAR),
dict(id='P20', title='A crash between writes leaves a usable, consistent store',
 statement='If the process dies at any point during any request, then after restart every operation still works: listings answer, the interrupted request can be repeated with success, and everything acknowledged before the crash is intact. No crash point leaves a record that makes later requests fail or crash.',
 over=['crash_points','histories'], quant='a crash between any two writes of every management request, every device message of a test run, every server test execution and the first start, each followed by a restart and every other operation; also a second crash during the recovery',
 why='Needs a crash at a chosen write.',
 files=['api/testapi/rv.api.go', 'api/testapi/do.api.go', 'api/testapi/device.api.go', SH+'testcom/dbs/listener.db.go'],
 mech=[('write order of multi-record requests', 'api/testapi/')], hook='badger copy with crash points (no change in /repo)',
 technique='exhaustive crash point enumeration on the real handlers with restart', note='Badger commits are assumed atomic and durable; crash points are between them. '+HAR),
dict(id='P21', title='Device service info is decoded exactly or refused',
 statement='A device\'s service info list is accepted if and only if it contains every mandatory item and every known item carries a value of its declared type; the decoded values are exactly those sent. Order of items does not matter, and malformed values, duplicates of known items with bad values or unknown items never crash the decoder.',
 over=['inputs'], quant='all subsets of the mandatory items, all items x value shapes, all module list chunk forms up to 3 chunks',
 why='One happy and one missing-item case are tested.',
 files=[SH+'sims.tools.go', SH+'sims.reg.go', DO+'common.go'], mech=[('item filter and decoder', SH+'sims.tools.go')],
 technique='exhaustive enumeration of a bounded input space against a reference decoder', note='Bounded product enumeration. '+HAR),
dict(id='P22', title='Rendezvous info round trips between URLs, config and wire',
 statement='Rendezvous directives built from any list of service URLs decode, on the device side, to exactly those hosts, ports and protocols, in order, for DNS names and IPv4 and IPv6 addresses, default and explicit ports. Any rendezvous info that is malformed is refused with an error, and decoding never crashes or silently drops or alters a directive that it understands.',
 over=['inputs'], quant='all lists of 1-2 URLs from schemes x hosts x ports, all instruction kinds and all single mutations of encoded info',
 why='No test.',
 files=[SH+'rvinfo.go'], mech=[('URL and directive conversion', SH+'rvinfo.go')],
 technique='exhaustive enumeration of a bounded input space against a reference decoder', note='Bounded product enumeration. '+HAR),
dict(id='P23', title='Command line does what it reports',
 statement='A command ends with exit status 0 exactly when it did what it is for. reset removes all and only the records it names and the server goes on with the rest; loading a folder adds every voucher in it, each device of which can then be onboarded, and refuses broken ones; pushing registers every loaded voucher with the configured owner address at the rendezvous server or fails; generate gives a voucher and a matching credential that can be onboarded end to end; the to1 and to2 client commands succeed exactly when the peer answers every step correctly, and end without a crash whatever a peer or file contains; with a dashboard configured, to2 reports the onboarding it has completed exactly once, with the token its owner gave it, and nothing else; conversions between file formats keep every byte; and the settings documented in the README have their documented effect.',
 over=['configurations','inputs','fault_sequences'], quant='all enumerated stores, voucher folders, generated devices, settings, single-node changes of credential and voucher files, one wrong answer of a peer at each step, owners that are never done, and dashboards that work or fail',
 why='No test runs a command.',
 files=['main.go','dbs/user.db.go','core/shared/testcom/dbs/listener.db.go','core/device/genvoucher.go','core/do/dbs/voucher.db.go'],
 mech=[('commands', 'main.go'), ('reset', 'dbs/user.db.go'), ('virtual device generation', 'core/device/genvoucher.go')],
 technique='exhaustive enumeration of command lines, stores and peer behaviours; each run of the real command line is judged by its effects and exit status', note='Exhaustive within the bounds; the command line is the real main package, called under an overlay with shortened seeding. '+HAR),
dict(id='P24', title='Negative tests always send something actually broken',
 statement='Whenever the tool sends a deliberately broken message or answer in a negative conformance test, what is sent really is invalid in the way the test names: a conformant peer must refuse it, whatever random choices the tool makes. Positive tests send a fully valid message.',
 over=['inputs'], quant='all client and server negative test ids x all small random choices of the fuzzers, judged by an independent strict peer',
 why='A negative test that sometimes sends valid data fails conformant peers at random.',
 files=[SH+'conformance.go', RV+'listener-to1.go', DO+'listener-to2-60-HelloDevice.go', 'core/do/to0/req-to0-22-OwnerSign.go', 'core/device/to2/req-to2-64-ProveDevice.go'],
 mech=[('fuzzers', SH+'conformance.go')],
 technique='enumeration of random choices through a scripted random source, judged by an independent peer', note='Small-integer random choices enumerated. '+HAR),
dict(id='P25', title='Interop dashboard gets exactly the completed steps',
 statement='When an interop dashboard is configured, each owner registration, rendezvous and onboarding that completes is reported to it exactly once by each component that has a token for it: one authenticated request carrying the device GUID, the protocol and the nonce of that session, with that component\'s own token. Messages that are refused, and the traffic of a device under conformance test, report nothing. A dashboard that refuses, fails or cannot be reached never changes the protocol answers, and device tokens are handed to exactly the devices they are configured for; a broken token setting is answered with a protocol error, never by a dropped connection.',
 over=['histories','configurations','fault_sequences'], quant='all sequences of valid, broken and repeated final messages of each protocol to depth 3-4, times dashboard behaviours and base URLs; whole device conformance runs; each failing database access during a final message and that message again; all token mappings of three devices',
 why='No test configures a dashboard.',
 files=[SH+'interop.go', RV+'listener-to0.go', RV+'listener-to1.go', DO+'listener-to2-70-Done.go', DO+'common.go', 'core/do/to0/req-to0-22-OwnerSign.go'],
 mech=[('event submission', SH+'interop.go'), ('device tokens', DO+'common.go')],
 technique=EXPL, note='Exhaustive within the bounds; a dashboard that never answers (30 s client timeout) is not explored. '+HAR),
dict(id='P28', title='Every supported device/owner/cipher combination onboards',
 statement='For every combination of supported device key type, owner key type, cipher suite and key exchange, a conformant device can register, rendezvous and complete onboarding against the services with matching keys on both ends. Combinations that cannot work or are not implemented are refused with a protocol error, never by a crash or a silently wrong result.',
 over=['configurations'], quant='the full product of device key, owner key, suite, exchange and voucher length',
 why='No test runs the protocols end to end.',
 files=[DO+'listener-to2-60-HelloDevice.go', SH+'kex.crypto.go', SH+'enc.crypto.go', RV+'listener-to0.go'],
 mech=[('algorithm tables', SH+'kex.crypto.go')],
 technique='exhaustive product of configurations, each a whole protocol run against the real handlers with an independent device', note='Full product. '+HAR),
dict(id='P29', title='A failed database write is never reported as success',
 statement='Whatever access to the database fails during a request, a request is answered as successful only if everything it has to store has been stored: an API request whose write fails is answered with an error, a protocol message whose write fails with a protocol error, and a test run of which a result, its start or its end could not be saved is not reported as executed. Nothing that was stored before is lost or altered by a failing access beyond what the request itself changes, no failure crashes a handler, a first start whose seeding could not be saved fails, and once the database works again the same operation succeeds with its usual outcome and a test run in progress can be completed.',
 over=['fault_sequences','histories'], quant='every single database access (read or commit) of every management operation, protocol exchange, test execution, attempt of a whole device run and first start fails, once or persistently; pairs of failing writes in thorough',
 why='Tests run against a database that never fails; which of the hundreds of accesses fails decides what is lost.',
 files=['core/shared/testcom/dbs/reqt.db.go','core/shared/testcom/dbs/listener.db.go','dbs/user.db.go','dbs/session.db.go','core/rv/ownersign.db.go', DO+'listener-to2-68-DeviceServiceInfo.go','api/testapi/device.api.go','seeding.setup.go'],
 mech=[('test run records', 'core/shared/testcom/dbs/reqt.db.go'), ('session updates', DO+'listener-to2-64-ProveDevice.go')],
 technique='exhaustive fault enumeration: the real handlers run over the real database whose n-th access fails, for every n', note='A failing access is refused before anything is written; a commit of unknown outcome is not modelled. '+HAR),
]
NA = {}
