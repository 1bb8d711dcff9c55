#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","The object store behaves as a typed map from primary key to object",
 "For every history of create, update, delete and get: create succeeds exactly when no object of that type has that primary key, update and delete succeed exactly when one has, and get returns precisely the object last written under that type and key, or not-found. An operation that fails changes nothing, and no operation on one object ever changes, hides or reveals an object with another key or of another type. This holds for primary keys of every supported type, of any content except the empty key, which is refused, and of any length the storage engine accepts (at least 60 000 bytes; longer keys are refused with an error).",
 ["histories","inputs"],"all operation sequences up to the bound over colliding keys and types; all key lengths and edge contents",
 "store_test/objects store_test run one create/get/update/delete each with one short key; nothing checks sequences, other key types, long keys or cross-type keys",
 ["runtime/orm/store.go","runtime/orm/objects/store.go","runtime/orm/schema/schema.go","runtime/runtime.go","runtime/kv/badger.go"],
 [("Store.Create/Get/Update/Delete","runtime/orm/store.go"),("saveKeyRaw","runtime/orm/objects/store.go"),("convertStoreError","runtime/runtime.go")],
 ["orm.Store API","runtime.Runtime Create/Update/Delete/Get"],[("objects kv","object bytes by type/primary key","runtime/orm/objects/store.go")])
p("C02","Index queries return exactly the matching current objects",
 "After any history of create, update and delete, listing a type by one indexed field and value yields exactly the objects whose current field value equals it, each once and with its current content, in primary-key order; when none match, the list fails or is empty and never yields an object. Objects moved to another value by update or removed by delete never appear under their old value. A query on a field that is not indexed, or with a value that does not fit the field, is refused.",
 ["histories","inputs"],"all operation sequences up to the bound over colliding keys, types, indexed fields and values; all value lengths",
 "indexes/store_test indexes one object, lists it once and unindexes it once",
 ["runtime/orm/indexes/store.go","runtime/orm/indexes/list.go","runtime/orm/indexes/types.go","runtime/orm/iterator.go","runtime/orm/store.go"],
 [("Index/ClearIndexes","runtime/orm/indexes/store.go"),("prefixesToScan","runtime/orm/indexes/list.go"),("indexObjectWithSecondaryKey.marshal","runtime/orm/indexes/types.go")],
 ["orm.Store.List","runtime list API"],[("index kv","secondary key entries and the per-object index list","runtime/orm/indexes")])
p("C03","Key encodings are typed, injective and agree across input forms",
 "For every field type that can be a primary or secondary key (bool, int32, uint32, int64, uint64, string, bytes), distinct values have distinct encodings. A value given as text, as a Go value or read from an object has the same encoding, and text or Go values outside the type (wrong type, out of range, malformed) are refused.",
 ["inputs"],"every value in the enumerated domains, pairwise, in every input form",
 "kindencoder has one smoke test over a handful of values",
 ["pkg/protoutils/kindencoder/kindencoder.go","runtime/orm/schema/schema.go","runtime/orm/schema/indexer.go"],
 [("KindEncoder implementations","pkg/protoutils/kindencoder/kindencoder.go")],["kindencoder.NewKindEncoder","schema.EncodePrimaryKey*","Indexer.Encode*"])
p("C04","The key-value store behaves as an ordered byte-string map",
 "After any history of set and delete, get and has report exactly the last value set for a key and not since deleted; prefix iteration yields exactly the live keys with that prefix, in order and without the prefix, and range iteration exactly the live keys from start to end inclusive (to the last key when end is empty), each with its current value. Deleting reports whether the key existed. Mutating a returned or passed slice afterwards never changes what is stored.",
 ["histories","inputs"],"all operation sequences up to the bound over prefix-related keys, all prefixes and ranges over them",
 "badger_test checks that one iterator over one key is valid",
 ["runtime/kv/badger.go","runtime/kv/kv.go"],[("Badger","runtime/kv/badger.go")],["kv.KV API"])
p("C05","Object registration accepts exactly the definitions that can be stored",
 "Registering a state object is refused when the definition names no primary key for a non-singleton, a primary key for a singleton, a field the object lacks, a key field of a type that cannot be encoded, secondary keys on a singleton, the same secondary key twice, when the object contains a map at any depth or a field of an unsupported scalar type, or when the type is already registered; every other definition is accepted. An accepted type can be created, read back by its key and listed by each of its indexes.",
 ["inputs","configurations"],"all definitions over generated message shapes (every scalar kind, maps and unsupported kinds at every nesting depth up to 3, recursive messages)",
 "schema_test tries a dozen hand-picked definitions over one message",
 ["runtime/orm/schema/schema.go","runtime/orm/schema/registry.go","core/schema","pkg/protoutils/desc/desc.go"],
 [("parseObjectSchema","runtime/orm/schema/schema.go"),("HasMap/HasKinds","pkg/protoutils/desc/desc.go")],["orm.Store.RegisterObject"])
p("C06","A state transition runs its handlers in order and stops at the first refusal",
 "Delivering a state transition runs, in this order and each in registration order: all admission handlers, the authorization check, all pre-execution handlers, the single execution handler, all post-execution handlers, each receiving the caller's users and the transition. The first failure stops everything after it and the delivery reports an error; delivery succeeds only if every step succeeded. When the caller asks for the admission handlers to be skipped, exactly they are. A transition nobody handles is refused and runs nothing.",
 ["programs","configurations"],"all handler configurations up to 3 per stage with every success/failure assignment, authorization on/off and allow/deny",
 "runtime_test delivers a handful of transitions with one handler per stage",
 ["runtime/runtime.go","runtime/router.go","runtime/builder.go"],[("Runtime.deliver","runtime/runtime.go"),("Router","runtime/router.go")],["Runtime.Deliver, module clients"])
p("C07","A runtime is built exactly when its modules compose",
 "Building fails when a module has no name, two modules handle the same transition or own the same object, a module needs a transition nobody handles, a pre- or post-execution handler targets a transition nobody handles, more than one authorizer is given, or an object definition is invalid; otherwise it succeeds whatever the order of modules. Initialising genesis runs each module's default genesis exactly once in module order, publishes every module's descriptor, then starts services, and a second initialisation is refused without effect.",
 ["configurations"],"all module lists up to 3 drawn from the module templates, in every order",
 "builder_test tries a few fixed module lists",
 ["runtime/builder.go","runtime/runtime.go","runtime/module/descriptor.go","core/runtime/module.go"],[("Builder.Build","runtime/builder.go"),("Runtime.InitGenesis","runtime/runtime.go")],["Builder.Build","Runtime.InitGenesis"])
p("C08","With authorization on, an action is allowed exactly when a bound role grants it",
 "Once authorization is enabled, create, update, delete and deliver succeed only if every acting user is currently bound to an existing role and at least one of those roles currently grants that verb on that resource, and are otherwise refused without changing state. Roles can be created only once per id and only over known resources, bindings only to existing roles and once per subject. Grants and revocations take effect immediately. The authorizer decides get and list requests by the same rule.",
 ["histories","configurations"],"all sequences of role creation, role change, binding, unbinding and access attempts up to the bound, by every user set up to size 2",
 "rbac_test denies one user and allows another once",
 ["core/rbac/authorizer.go","core/rbac/ctrl_create_role.go","core/rbac/ctrl_bind.go","runtime/runtime.go"],
 [("Authorizer.Authorize","core/rbac/authorizer.go"),("Runtime.authorized","runtime/runtime.go")],["Runtime Create/Update/Delete/Deliver"],
 [("Role, RoleBinding","permissions and their subjects","core/rbac/v1alpha1")])
p("C09","Genesis gives every module and external accounts only their own permissions",
 "For every module composition, after genesis each module is bound to a role that grants exactly: create, update, delete, get and list on the objects it owns, and delivery of the transitions it handles or declares it needs. The external account role grants exactly delivery of the transitions whose protobuf definition marks them external, and nobody but modules is bound to a role.",
 ["configurations"],"all subsets and orders of the available modules, probing every (user, verb, resource) combination",
 "rbac_applier_test only prints options",
 ["core/rbac/rbac_applier.go","core/rbac/module.go","core/rbac/xt","runtime/module/descriptor.go"],
 [("initGenesisRoleCreator","core/rbac/rbac_applier.go")],["stored Role/RoleBinding objects","Runtime with authorization enabled"])
p("C10","Checking and querying never change state",
 "In every reachable state, CheckTx of any transaction (valid or not), ABCI queries, reads and lists by modules or extension services, HTTP requests, info requests and admission checks leave the stored state byte-for-byte unchanged. An extension service's client refuses every create, update, delete and deliver.",
 ["histories","inputs"],"every operation of the read alphabet in every state reached by the enumerated histories",
 "no test compares state before and after a read",
 ["runtime/abci.go","runtime/query.go","runtime/client/orm.go","core/apiserver/router/server.go","x/authn/extensions.go","x/distribution/extensions.go"],
 [("ABCIApplication.CheckTx","runtime/abci.go"),("ORMClient","runtime/client/orm.go")],["full content of the stores before/after"])
p("C11","A delivered transaction takes effect completely or not at all",
 "When DeliverTx reports success, every message of the transaction has taken full effect in order; when any message fails, none of the transaction's messages leaves any effect. A transaction that fails before its messages run because it was not admitted leaves no effect at all, and one that was admitted but whose messages fail (in their own admission checks, authorization or execution) leaves exactly the fee payment and the signers' sequence increments.",
 ["fault_sequences","inputs","histories"],"all transactions of up to 4 messages from the message alphabet with a failure at every position and stage, in several starting states",
 "the abci path has no in-process test at all (its tests need a running node)",
 ["runtime/abci.go","runtime/runtime.go","x/authn/extensions.go","x/distribution/extensions.go"],[("ABCIApplication.DeliverTx","runtime/abci.go")],["full content of the stores","DeliverTx response code"])
p("C12","Signed transactions execute at most once and in sequence order",
 "A transaction is executed only if, for each of its signers, the sequence it was signed for equals that account's current sequence; executing it increases the sequence of each signer by exactly one and of nobody else. Hence no transaction bytes are ever executed twice, and stale, future or reordered transactions are refused without effect.",
 ["histories"],"all delivery orders with repetitions of pre-signed transactions of two accounts up to the bound, across blocks; sequences up to 300",
 "no test delivers two transactions",
 ["x/authn/extensions.go","x/authn/v1alpha1/client.go","runtime/abci.go"],[("sigVerifier","x/authn/extensions.go"),("increaseSequence","x/authn/extensions.go")],["DeliverTx code, Account.sequence"],
 [("Account.sequence","next expected sequence of the account","x/authn/v1alpha1")])
p("C13","Only transactions signed by every declared signer for this chain are accepted",
 "CheckTx and DeliverTx accept a transaction only if each declared signer's public key hashes to an existing account and carries that key's valid signature over this transaction's exact body, auth info, this chain id and that account's number. Any alteration of an accepted transaction's signed content or signatures, and any signature made by another key, for another chain, account number or transaction, is refused and changes nothing.",
 ["inputs"],"every single-bit flip, truncation, signature swap and re-signing variation of transactions with 1 to 3 signers",
 "the decoder tests use no signatures, the only signing test needs a live node",
 ["x/authn/extensions.go","x/authn/tx/decoder.go","x/authn/crypto/crypto.go","x/authn/crypto/secp256k1/secp256k1_nocgo.go"],
 [("sigVerifier.Validate","x/authn/extensions.go"),("Decoder.Decode","x/authn/tx/decoder.go")],["CheckTx/DeliverTx code and state"])
p("C14","Transfers conserve coins and never overdraw",
 "Every accepted transfer moves exactly the stated amount of each denomination: the sender's balance falls and the recipient's rises by it (self-transfers change nothing), every other balance is untouched, and the total of each denomination is constant. A transfer is refused without effect when the sender lacks any of the stated coins or the stated amount is not a list of non-negative integer amounts of distinct, well-formed denominations; zero amounts move nothing. Balances are never negative.",
 ["histories","inputs"],"all sequences of transfers up to the bound among colliding accounts with the amount alphabet (zero, negative, overdraft, >2^64, duplicates, several denominations, malformed)",
 "handler_test performs one transfer between two accounts",
 ["x/bank/handler.go","core/coin/v1alpha1/coin.go"],[("SendCoinsHandler.Exec","x/bank/handler.go"),("SafeAdd/SafeSub","core/coin/v1alpha1/coin.go")],["Balance objects"],[("Balance","coins by address","x/bank/v1alpha1")])
p("C15","Only an account's own signature can spend its coins",
 "No transaction lowers the balance of an account that did not sign it: transfers out of an account and fees charged to an account require that account among the transaction's signers. Directly setting a balance, assigning roles and other internal operations are refused when sent by external accounts.",
 ["inputs","histories"],"all combinations of signers, message senders, fee payers and messages",
 "no test sends a transaction on behalf of someone else",
 ["x/bank/handler.go","x/bank/module.go","x/authn/tx/decoder.go","x/distribution/extensions.go"],[("authorization of MsgSendCoins","x/bank"),("fee payer selection","x/authn/tx/decoder.go")],["Balance objects after DeliverTx"])
p("C16","Fees are charged exactly once, to the payer, into the fee collector",
 "A transaction whose payer cannot cover the stated fee is refused without effect. Otherwise, whether its messages then succeed or fail, exactly the stated fee leaves the payer's balance and is added to the fee collector's, once; the payer is the stated fee payer or else the first signer.",
 ["inputs","histories"],"all combinations of fees, payers, balances and message outcomes, over histories of transactions",
 "distribution has no tests",
 ["x/distribution/extensions.go","x/authn/tx/decoder.go","runtime/abci.go"],[("FeeChecker","x/distribution/extensions.go"),("FeeDeduction","x/distribution/extensions.go")],["Balance of payer and fee_collector"])
p("C17","No external input crashes the node",
 "For every byte string sent as a transaction, every query path, every HTTP request and every snapshot request of a peer, in every reachable state, CheckTx, DeliverTx, Query, the snapshot calls and the HTTP API return a response; rejected input yields a non-zero code (or an HTTP error status) and none of them panics.",
 ["inputs","histories"],"all byte strings up to length 2, all truncations and bit flips of valid transactions, all transactions with absent, empty or extreme parts, all query paths from the path alphabet",
 "tests send only well-formed input",
 ["runtime/abci.go","runtime/query.go","runtime/runtime.go","x/authn/tx/decoder.go","core/apiserver/router/server.go"],[("error propagation","runtime/runtime.go")],["panics at the ABCI/HTTP boundary"])
p("C18","Block processing state follows the ABCI calls",
 "After InitChain the chain id given is recorded; after BeginBlock the recorded current height and begin-block data are those of that block and the stage is begin-block; after EndBlock the stage is end-block with that height. EndBlock returns exactly the list of validator updates most recently set by a module since the previous EndBlock (none if no module set any), unchanged and in order, and reports it once; modules can set it only while the stage is init-chain or end-block, and a refused attempt changes nothing.",
 ["histories"],"all well-formed ABCI call sequences up to the bound with heights and validator updates from the alphabet",
 "abci module_test only builds and initialises a runtime",
 ["runtime/abci.go","core/abci/handlers.go","core/abci/tendermint"],[("BeginBlock/EndBlock/InitChain","runtime/abci.go"),("abci handlers","core/abci/handlers.go")],["Stage, CurrentBlock, BeginBlockState, ResponseEndBlock"])
p("C19","ABCI queries return exactly the addressed object",
 "A get query for group, kind and id returns the JSON of exactly the object of that type with that id, and a non-zero code when there is none or the path is malformed or unknown; it never returns another object. The resources query lists exactly the registered groups and kinds, in the same order every time.",
 ["inputs","histories"],"all registered types and ids from the edge alphabet (any length, separators, unicode), in all stored/absent combinations",
 "query_test performs two fixed queries",
 ["runtime/query.go","runtime/orm/schema/registry.go"],[("Querier","runtime/query.go")],["ResponseQuery"])
p("C20","The HTTP API returns exactly the addressed objects",
 "For every registered object type, GET on its path returns 200 and the JSON of exactly the object with the key in the path (or the singleton), 404 when it does not exist and 400 when the key or height is malformed. Keys that cannot be written as one path segment (empty, a dot segment, or containing a slash) are not addressable and never return another object. GET on its list path with one indexed field selection returns exactly the matching objects (no objects, or an error status, when none matches), and 400 when the field is not indexed or the value does not fit.",
 ["inputs","histories"],"all registered types and keys/values from the edge alphabet in all stored/absent combinations",
 "server_test performs three requests",
 ["core/apiserver/router/server.go","core/apiserver/router/types.go","pkg/protoutils/forge/list.go"],[("newGetHandler/newListHandler","core/apiserver/router/server.go")],["HTTP responses"])
p("C21","Replicas that process the same blocks agree",
 "Two independently built nodes fed the same genesis and the same blocks return the same response codes, data and validator updates for every call and end with identical stored state, whatever the mempool checks and queries either served in between.",
 ["histories","schedules"],"all block histories up to the bound over the transaction alphabet, each on several independently built replicas with and without interleaved checks and queries",
 "no test builds two nodes",
 ["runtime/abci.go","runtime/orm/objects/store.go","runtime/authentication/user/user.go"],[("deterministic marshalling","runtime/orm/objects/store.go")],["responses and full store content of both replicas"])
p("C22","Accounts get unique consecutive numbers and the external role",
 "However accounts come to exist (explicit creation, or the first transfer of coins to the address, whatever its amount), each new account has sequence zero, the next unused account number with no number skipped or reused, and is bound to the external account role; an existing account is never replaced, renumbered or reset. Creation with no account or an empty address is refused without effect.",
 ["histories"],"all sequences of account creations and transfers, by transaction and by module call, up to the bound",
 "ctrl_state_transition_test creates one account",
 ["x/authn/ctrl_state_transition.go","x/authn/ctrl_admission.go","x/bank/handler.go"],[("CreateAccountHandler","x/authn/ctrl_state_transition.go"),("createAccountIfNotExist","x/bank/handler.go")],["Account, CurrentAccountNumber, RoleBinding objects"])
p("C23","The transaction decoder is strict and faithful",
 "Decoding succeeds only for transactions with a body, at least one message, auth info with a fee amount, at least one signer, one signature per signer, supported keys and the direct sign mode, and with no unknown field at any level including inside messages; the decoded messages, signers, sequences, payer and fee are exactly those encoded, in order. Everything else is refused.",
 ["inputs"],"all combinations of present/absent/duplicated parts, every unknown field injected at every nesting level, all message and signer lists up to the bound",
 "decoder_test decodes one transaction; decode_unknowns_test tries one unknown field",
 ["x/authn/tx/decoder.go","x/authn/tx/decode_unknowns.go","x/authn/tx/tx.go"],[("Decoder.Decode","x/authn/tx/decoder.go"),("unmarshalAndRejectUnknowns","x/authn/tx/decode_unknowns.go")],["authentication.TxDecoder.DecodeTx result"])
p("C24","secp256k1 keys verify exactly their own canonical signatures",
 "For every key and message, the signature made by a private key verifies under its public key for that message, and under no other key or message; any altered, truncated, extended or high-S form of it is refused, as is any malformed key, without panicking. Public keys and addresses are determined by the private key, equality holds exactly for identical keys, and keys derived from secrets are valid and reproducible.",
 ["inputs"],"all pairs of keys and messages in the alphabets, all single-bit flips and truncations of signatures, edge scalars",
 "unit tests sign random messages with random keys of the upstream SDK type and flip one bit",
 ["x/authn/crypto/secp256k1/secp256k1.go","x/authn/crypto/secp256k1/secp256k1_nocgo.go"],[("Sign/VerifySignature","x/authn/crypto/secp256k1/secp256k1_nocgo.go")],["PrivKey/PubKey API"])
p("C25","Descriptor dependencies are complete, unique and ordered",
 "For every protobuf file, its reported dependencies contain each transitively imported file exactly once and every file after all the files it imports, so registering them in order always succeeds. The map and kind inspections of a message agree with a direct walk of its fields for maps at any depth and for the message's own fields.",
 ["inputs"],"all import graphs with up to 5 files; all message graphs (including recursive ones) with up to 3 messages",
 "desc_test inspects two fixed files",
 ["pkg/protoutils/desc/desc.go","runtime/module/descriptor.go"],[("Dependencies","pkg/protoutils/desc/desc.go")],["desc package API"])
p("C26","Generated clients address exactly the declared objects and transitions",
 "For every declared state object and transition, the generated code reports the object's own group and kind, creates fresh instances of its own type, and its client gets, lists, creates, updates, deletes or delivers exactly that type with the arguments given; the generated schema equals the declared singleton flag, primary and secondary keys. Code regenerated for the repository's definitions declares and does the same as the committed code. For every message declaration whose names do not clash with each other the generated code compiles; declarations no client can be right for (a message that is both object and transition, an object that is neither singleton nor keyed, a key that is no field or of a kind other than string or bytes, a file without a package) are refused.",
 ["programs","inputs","histories"],"every generated file in the repository; all message declarations over the name, key, index, package and role alphabets; all short operation histories through each client",
 "no test covers the generator",
 ["pkg/modulecodegen/codegen.go","pkg/modulecodegen/schema.go","pkg/modulecodegen/api_definition.go"],[("genFile","pkg/modulecodegen/codegen.go")],["generated source text and behaviour"])
p("C27","Extension services are named, wired, started and stopped exactly once in order",
 "When genesis completes, every module's extension services have received a read-only client and been started exactly once, in module then registration order, after all state exists; the first service that fails to start stops the sequence and is reported. Stopping attempts every service even if some fail and reports all failures, and a service can be stopped at any moment after its start returned.",
 ["fault_sequences","configurations"],"all service lists up to 4 with every start/stop failure assignment; stop immediately after start",
 "apiserver module_test starts one service",
 ["runtime/services.go","runtime/module/services.go","core/apiserver/module.go"],[("ServiceGroup.Start/Stop","runtime/services.go")],["service call log"])
p("C28","User sets are exact sets of names",
 "A user set built from names, users or the union of other sets (absent sets allowed) contains exactly the distinct names given: it has a list of names exactly when it has every one of them, lists each user once, and building or uniting sets never changes the sets it was built from.",
 ["inputs"],"all constructions over up to 3 groups of up to 4 names with duplicates, empty names and nil groups",
 "the user package has no tests",
 ["runtime/authentication/user/user.go"],[("NewUsersUnion","runtime/authentication/user/user.go")],["user.Users API"])
p("C29","Coin addition and subtraction are exact",
 "Adding or subtracting valid coin lists (distinct well-formed denominations, non-negative integer amounts) gives, for every denomination, exactly the integer sum or difference, with one entry per denomination having a non-zero amount, ordered by denomination; subtraction fails exactly when some difference would be negative, addition exactly when a sum exceeds 255 bits. Inputs containing negative, non-integer, badly named or duplicate coins are refused, and inputs are never modified.",
 ["inputs"],"all pairs of coin lists over the denomination and amount alphabets (0, 1, 2^63, 2^64, 2^128 boundaries)",
 "coin tests use a few small amounts",
 ["core/coin/v1alpha1/coin.go"],[("SafeAdd/SafeSub","core/coin/v1alpha1/coin.go")],["SafeAdd/SafeSub results"])
p("C30","The OpenAPI document describes every served path completely",
 "For every set of registered objects, the generated specification contains exactly the served object, singleton and list paths, each with an operation id of its own, its path and query parameters and a response schema; every schema reference resolves, every message schema lists exactly the message's fields with the names and types they have in the JSON the API answers with, and the same set always yields the same document.",
 ["configurations","inputs"],"all subsets of the repository's state objects plus generated message shapes",
 "oas3schema has one smoke test",
 ["core/apiserver/router/openapi.go","pkg/protoutils/oas3schema/oas3schema.go"],[("OpenAPIv3Generator.Build","pkg/protoutils/oas3schema/oas3schema.go")],["/spec document"])
p("C31","Transaction limits are enforced exactly at their boundaries",
 "A transaction is refused exactly when its timeout height is non-zero and below the current height, its memo has more bytes than the maximum, it has more signatures (of whomever) than the limit, a signer has no account, or the payer's balance does not cover the fee, each at its exact boundary; refusal leaves no effect, and CheckTx and DeliverTx decide alike in the same state.",
 ["inputs","histories"],"all values around each boundary for each limit, alone and combined, at all heights in the alphabet",
 "no test exercises these checks",
 ["x/authn/extensions.go","x/distribution/extensions.go"],[("auth admission handlers","x/authn/extensions.go")],["CheckTx/DeliverTx codes"])
p("C32","Every message in a block passes its module's admission checks",
 "A message whose admission handlers refuse it for the transaction's signers is never executed, whether its transaction arrives through CheckTx first or is delivered directly in a block: the transaction fails and the message has no effect. Admission handlers of all modules registered for the message are consulted, in order, and a refusal by any of them is final. Likewise a transaction refused by a transaction admission handler of any module is refused by CheckTx and DeliverTx and has no effect. It does not matter which error a refusal is.",
 ["inputs","histories"],"all messages with refusing and accepting admission handlers at every position of transactions of up to 3 messages, delivered with and without a prior check",
 "no test delivers a transaction through the ABCI application",
 ["runtime/abci.go","runtime/runtime.go"],[("runAdmissionChain","runtime/runtime.go"),("DeliverTx","runtime/abci.go")],["DeliverTx code and state"])
p("C33","The client library and command line return exactly what the node answers",
 "A read through the client library returns exactly the object or singleton the node stores under the requested key (decoded without loss) or the resources the node describes, and every refusal, malformed or truncated answer is reported as an error, never as an empty, partial or stale object. The command line asks for exactly the object named on it, prints the answer as its JSON, exits with an error whenever the node or its arguments are unusable, and never crashes.",
 ["inputs","histories"],"all key words and object contents through every read operation; every answer shape and every cut position of an answer; all command lines up to 4 words",
 "neither pkg/client nor pkg/spfcli has a test that runs without a network",
 ["pkg/client/client.go","pkg/spfcli/get.go","pkg/spfcli/resources.go","pkg/spfcli/clicontext.go","pkg/spfcli/config.go"],[("client","pkg/client/client.go"),("get","pkg/spfcli/get.go")],["client results and errors, command output and exit"])
p("C34","Reads served while blocks are processed give true answers and change nothing",
 "Reads through the HTTP API and the read-only client may run at any moment, at once with each other and with the processing of a block. In every interleaving none of them crashes, blocks forever or accesses memory without synchronisation, and the processing of the block has the outcome and the state it has without them. A read of one object answers a version that object had at some moment of the request (not found only if it was absent at some moment). A list contains each object at most once and only versions stored at some moment of the request, and is exactly the matching set when nothing it depends on changed meanwhile.",
 ["schedules","histories"],"all schedules of reads and block processing histories (update, creation, deletion, failed transaction, transfer, creation of an account, end and begin of a block, mempool check) with up to 3 context switches, at every step of the storage engine",
 "the tests are sequential; a node answers reads from other goroutines than the one which processes blocks",
 ["core/apiserver/router/server.go","core/apiserver/**","runtime/orm/store.go","runtime/orm/indexes/store.go","runtime/orm/objects/store.go","runtime/orm/schema/schema.go","runtime/kv/badger.go","runtime/client/client.go"],[("newGetHandler","core/apiserver/router/server.go"),("Badger","runtime/kv/badger.go")],["answers of concurrent requests, outcome and state of the concurrent block"])
p("C35","Importing a genesis hands every module exactly its own part",
 "Importing a state document calls the import of every module that has a genesis exactly once, in the order the modules were added, with exactly the JSON value the document holds under the module's own name (nothing when it holds none), whatever other keys, key orders and spacing it has, and no module's default genesis. A document that is not a JSON object is refused before any module is called. The first module that refuses its part stops the import, and the refusal is reported.",
 ["inputs"],"all assignments of JSON values to three modules, orders of modules and keys, further keys, similar names, failing modules and kinds of failures, truncations and malformed documents",
 "TestRuntime_Import imports one empty object",
 ["runtime/runtime.go"],[("Import","runtime/runtime.go")],["calls the modules' genesis handlers receive, returned error"])
p("C36","Refusals carry the code of their cause",
 "Every failed CheckTx and DeliverTx answers with a non-zero code of the codespace runtime. Refusals by transaction or message admission and by post-authentication have the code of bad requests (400). A message that fails while it executes (before or after its writes, nested or in a post-execution step) has the code of the class its error belongs to however it is wrapped: not found 404, already exists 409, bad request 400, conditions not met 412; a failure of none of these classes, such as a missing permission or a panic, has none of these codes. A transaction that cannot be decoded has code 1 or 400.",
 ["inputs"],"all stages of failure x kinds of errors x positions among the messages, checked and delivered; all wrappings of the errors up to depth 4",
 "no test looks at a response code of a failing transaction",
 ["runtime/errors/errors.go","runtime/abci.go","runtime/runtime.go"],[("ToABCIResponse","runtime/errors/errors.go"),("CheckTx/DeliverTx","runtime/abci.go")],["CheckTx/DeliverTx responses"])
p("C37","An account changes only by authentication: sequence and first key",
 "When a transaction is authenticated, whatever becomes of its messages, each declared signer's account record changes in exactly two ways: its sequence grows by one and, if no public key is registered with it, the key that signed is registered. A registered key is never replaced, and the address and account number never change. The records of accounts that did not sign are never changed by a transaction, and neither a check nor a transaction that is refused before or during authentication changes any record. An account that a transfer creates has no key and sequence zero until it signs.",
 ["histories","inputs"],"all ordered sets of signers with and without registered keys x messages that succeed or fail at each stage x following transactions; all histories of such transactions to the bound; lists of many signers",
 "the tests deliver single transactions of one signer and do not look at the account afterwards",
 ["x/authn/extensions.go","x/authn/v1alpha1/client.go","runtime/runtime.go"],[("setPubKeys.Exec, increaseSequence.Exec","x/authn/extensions.go"),("UpdatePublicKey, IncreaseSequence","x/authn/v1alpha1/client.go")],["stored accounts after CheckTx/DeliverTx"])
p("C38","Modules act under their own name",
 "Every creation, update, deletion and delivery which a module performs through its client is presented to the authorizer before it takes effect, for exactly that verb and resource and for exactly the users: the module's own name, and the users it impersonates in that very call. It is performed if that is allowed and otherwise fails without effect. The handlers of a delivered transition are called for these same users. It makes no difference who called the module, which calls it made before, whether they failed, how deep it is nested or from which handler it acts; nobody else's identity is borrowed and an impersonation ends with its call. A module cannot read past heights.",
 ["histories","inputs"],"all actions x lists of impersonated users x handlers they are made from x refusals; all pairs and nestings of actions to the bound; lists of many users and long chains of modules",
 "the tests use one module and an authorizer that allows everything",
 ["runtime/client/client.go","runtime/module/client.go","runtime/runtime.go","runtime/authentication/user/user.go"],[("RuntimeClient","runtime/client/client.go"),("Runtime.Deliver, Create, Update, Delete","runtime/runtime.go")],["attributes the authorizer receives, users the handlers receive, results of the module's calls"])
p("C39","Transactions pass the authentication handlers of every module in order",
 "CheckTx runs the transaction admission handlers of all modules in the order in which the modules were added and, within a module, in which they were registered, and then the message admission handlers of each message in turn. DeliverTx runs the same transaction admission handlers, then the post-authentication handlers of all modules in the same order, and then each message through its whole pipeline for the users of the transaction. Each handler is called exactly once and given the transaction as the application's decoder returned it. The first failure (an error of any kind or a panic) ends the call, which fails, and no later handler runs; otherwise it succeeds. A transaction that cannot be decoded, or that arrives at an application without decoder, reaches no handler and is refused.",
 ["histories","inputs"],"all numbers of handlers of three modules x messages x failing step x kind of failure, checked and delivered; all histories of such calls to the bound; many handlers, modules and messages",
 "the tests register one admission handler of one module and never a post-authentication handler that fails",
 ["runtime/builder.go","runtime/runtime.go","runtime/router.go","runtime/abci.go","runtime/module/descriptor.go"],[("CheckTx/DeliverTx","runtime/abci.go"),("install of handlers","runtime/builder.go")],["handlers called, their arguments, response codes"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
