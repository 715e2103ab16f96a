import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[0]} for m in mech],"hook_needed":None}
    if state: a["state"]=[{"name":state,"meaning":"state the mechanism keeps between steps"}]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
TX=["stacks/src/transaction/base.rs","stacks/src/transaction/auth.rs","stacks/src/transaction/payload.rs","stacks/src/transaction/condition.rs","stacks/src/transaction/builder.rs"]
p("C01","A broadcast delivers exactly the transaction the caller built",
"Whatever the node receives on POST /v2/transactions for a broadcast call is, byte for byte, the SIP-005 encoding of the transaction the caller built: an independent decoder recovers every field the caller asked for (network, chain id, auth mode, signer, nonce, fee, anchor mode, post-conditions, payload, arguments) and nothing else. It goes to the node the handle names, as application/octet-stream. This holds for any network timing, short or interrupted writes, and any number of threads broadcasting at once.",
["inputs","schedules","fault_sequences"],"every encodable transaction (token transfer or contract call, single-sig, multi-sig, sponsored; boundary values of every field), every interleaving of concurrent callers, every pattern of short, delayed and interrupted socket I/O",
"The tests compare a handful of encodings against fixed hex and never put a transaction through a socket, let alone several at once or with short writes.",
TX+["stacks/src/rpc.rs","stacks/src/clarity/impl.rs","stacks/src/crypto/c32.rs"],["StacksRPC::broadcast","Transaction::encode","Auth::encode","PostConditions::encode","Payload encode","STXTokenTransfer/STXContractCall::transaction"],observe="request bytes at the simulated node")
p("C02","A signature binds the whole transaction to its signer",
"A transaction signed with a key is attributed by an independent verifier to exactly that key's signer, for the fee, nonce, network, conditions and payload it had when it was signed, whatever changes of fee and nonce came before. If anything is changed after signing - by a later edit, or to the bytes in flight, including replaying it on the other network - the result is never attributed to that signer.",
["inputs","histories","fault_sequences"],"every transaction and key, every history of edits, signatures and re-signatures, every alteration of the encoded transaction in flight",
"Tests check a few golden signatures; that every byte is covered by the signature and every edit invalidates it is a statement about all histories.",
TX+["stacks/src/transaction/signer.rs","stacks/src/crypto/hash.rs"],["SignatureHash::next_signature","make_presign_hash","Transaction::initial_hash","Auth::reset","Transaction::sign","TransactionSigner::sign_origin"],observe="Transaction::encode")
p("C03","Multi-sig signing works over any hand-over between cosigners",
"A multi-sig transaction passed between cosigners - in one signing session or many, with lost, duplicated, late or stale hand-overs and with cosigners that crash and resume from what they stored - verifies for an independent verifier exactly when it carries the required number of signatures and one field per key, each signature made by the right key over the transaction, in key order. A refused step (too many signatures, signing after the sponsor, an append to a single-sig condition) leaves the transaction unchanged, and working on one copy never changes another.",
["inputs","schedules","crash_points","histories"],"every m-of-n policy and hash mode, every assignment of signers, every order, loss, duplication and delay of hand-overs, every crash point between steps",
"No test signs with more than one key or hands a transaction over; correctness depends on the whole history of sessions.",
["stacks/src/transaction/signer.rs","stacks/src/transaction/auth.rs","stacks/src/transaction/base.rs","stacks/src/crypto/c32.rs"],["TransactionSigner::new","sign_origin","append_origin","SpendingConditionMultiSig","hash_p2sh/hash_p2wsh"],state="TransactionSigner.hash, SpendingConditionMultiSig.fields",observe="Transaction::encode after each step")
p("C04","Sponsored transactions: origin first, then sponsor, both bound",
"The origin of a sponsored transaction can sign before the sponsor is known, and its signature stays valid whatever sponsor, sponsor fee or sponsor nonce is set afterwards; the sponsor's signature binds the signed origin and the sponsor's own fee and nonce. A sponsor session cannot be opened on a transaction that is not sponsored or whose origin does not verify, and once the sponsor session is open or the sponsor has signed, the origin can be neither signed nor extended.",
["inputs","schedules","histories"],"every pair of origin and sponsor conditions, every order of edits, signatures, hand-overs (delayed, duplicated, stale) and refused steps",
"The repository has no test of sponsored signing; the guarantee is about sequences of steps by two parties.",
["stacks/src/transaction/signer.rs","stacks/src/transaction/auth.rs","stacks/src/transaction/base.rs"],["TransactionSigner::new_sponser","sign_sponsor","Auth::reset","Auth::set_sponsor"],state="TransactionSigner.origin_signed",observe="Transaction::encode, returned errors")
p("C05","The library's own verification accepts only what the network accepts",
"Auth::verify and Auth::verify_origin accept a received transaction exactly when an independent implementation of the Stacks signature rules accepts it: right keys, right count, right order, over these fees, nonces and contents. Any tampering, reordering, removal or addition of auth fields, or missing signature, is reported as an error, never accepted and never a crash.",
["inputs","histories","fault_sequences"],"every auth structure, signed, partially signed or unsigned, and every tampering with its fields, hash, fee, nonce and signatures",
"Tests never call verification on a damaged transaction; agreement with the network rules is over all of them.",
["stacks/src/transaction/auth.rs","stacks/src/crypto/hash.rs","stacks/src/crypto/c32.rs"],["Auth::verify","Auth::verify_origin","SpendingCondition::verify","SignatureHash::next_verify"],observe="returned Result")
p("C06","A broadcast reports success only for what the node accepted",
"broadcast returns BroadcastResponse::Ok only if the node answered that very submission with a success status, and then with the body the node sent (the transaction id, which equals Transaction::hash of the submitted transaction); a rejection comes back as BroadcastResponse::Err with exactly the node's error, reason and txid. A redirect, a reset, refused, timed out or truncated exchange, or an unreadable rejection is an Err - and a cleanly delivered answer is never turned into an Err.",
["inputs","schedules","fault_sequences"],"every node answer (2xx, 3xx, 4xx, 5xx, malformed), every fault in connecting, sending and receiving, at every byte, with any number of concurrent broadcasts",
"The rpc module has no tests at all; honesty of the outcome depends on which fault hits at which byte.",
["stacks/src/rpc.rs"],["StacksRPC::broadcast"],observe="returned Result against the simulated node's log")
p("C07","A query returns exactly the answer to that query or an error",
"info, address, estimate_fee and read_only return precisely the values in the response the node gave to that call - every field, full integer range, hex and text unchanged - or an error: never a value from another call, another account, another node or an earlier response, and never a value put together from a truncated or damaged response. A cleanly delivered answer is returned, not lost, and a node error on a query is not reported as data.",
["inputs","schedules","fault_sequences"],"every response value, every interleaving of concurrent queries on shared handles, every delay, truncation, reset, error status and damage",
"The rpc module has no tests; a test could only sample one response without faults or concurrency.",
["stacks/src/rpc.rs"],["StacksRPC::info","StacksRPC::address","StacksRPC::estimate_fee","StacksRPC::read_only"],observe="returned values against the simulated node's log")
p("C08","A read-only call carries its arguments and its result intact",
"A contract node receiving a read_only call gets the contract, function, sender and the list of arguments exactly as the caller gave them (decoded by an independent Clarity decoder), for every Clarity value; and the result value the node encodes decodes on the client to exactly that value, however the exchange is cut into segments and interleaved with other calls.",
["inputs","schedules","fault_sequences"],"every sequence of Clarity arguments and every result value (all types, nesting, boundary lengths and integers), under concurrent calls and fragmented delivery",
"Unit tests encode and decode a few values with the same code; symmetric mistakes and rare shapes are invisible to them.",
["stacks/src/rpc.rs","stacks/src/clarity/impl.rs","stacks/src/clarity/mod.rs","stacks/src/crypto/hex.rs"],["StacksRPC::read_only","Codec::encode/decode","decode_clarity_type"],observe="request at the simulated node; decoded result at the client")
p("C09","A wallet always yields the same accounts from the same phrase",
"For a given secret phrase, every account index always yields the same key pair and addresses - those of BIP-39/BIP-32 at m/44'/5757'/0'/0/index - whatever was asked before, in whatever order, on a fresh wallet, a clone, another thread or after a crash and restart. set_account affects only the index it names on the wallet it is called on, and an invalid phrase is refused.",
["inputs","histories","schedules","crash_points"],"every valid phrase (12 to 24 words), every index, every history of get_account, set_account, clone and restart, every interleaving of threads with their own clones",
"Two fixed accounts of one phrase are tested, each on a fresh wallet.",
["stacks/src/wallet.rs","stacks/src/crypto/c32.rs"],["StacksWallet::from_secret_key","get_account","set_account","StacksAccount::derive","get_address"],state="StacksWallet.accounts cache",observe="returned keys and addresses")
p("C10","A damaged address never becomes another destination",
"An address read back intact from storage or a message decodes to exactly the version and hash it was made from, in c32 and base58check form. A copy with flipped, lost, repeated or transposed bytes, or torn between two addresses, is refused or - where the text is a spelling variant of the same address - yields that same address: never a different one, and never a crash.",
["inputs","fault_sequences"],"every address (all versions, hashes with leading zeros), every flip, truncation, duplication, transposition or tear of its stored text",
"Tests round-trip valid addresses and try a few fixed bad ones; the guarantee is over every damage.",
["stacks/src/crypto/c32.rs","stacks/src/crypto/b58.rs","stacks/src/clarity/impl.rs"],["c32_address_decode","c32check_decode","Address::from_str","base58check_decode","PrincipalStandard::encode"],observe="returned Result")
p("C11","Damaged or torn encoded values are refused, never misread",
"An encoded Clarity value, argument list or payload read back intact, from bytes or from hex text, decodes to exactly the value encoded. A torn (truncated) copy and text that is not hex are refused, and any other damaged copy is either refused or decodes to a value whose own encoding is exactly the bytes consumed; decoding never crashes, hangs or takes memory out of proportion, and bytes that follow a value do not change it.",
["inputs","fault_sequences"],"every Clarity value up to 48 levels of nesting, every truncation point, bit flip, lost or repeated block, tear between two versions and trailing garbage; arbitrary bytes",
"Tests decode only what encode has just produced.",
["stacks/src/clarity/impl.rs","stacks/src/clarity/mod.rs","stacks/src/transaction/payload.rs"],["Codec::decode","decode_clarity_type","FnArguments::decode","TokenTransferPayload::decode","ContractCallPayload::decode"],observe="returned Result")
p("C12","What cannot be encoded is refused before anything is sent",
"A transaction or call with a part that has no valid encoding - a memo over 34 bytes, a name over 128 bytes, non-ASCII text in an ASCII string, an address with a bad checksum, alphabet, prefix or length, a recipient or post-condition address that is not a principal - makes encode, hash, sign, broadcast and estimate_fee (and, for an argument, read_only) return an error. No request for it reaches a node, nothing is cut short or replaced to make it fit, and values exactly at a limit still go through.",
["inputs","histories"],"every kind of unencodable part at every place it can occur in a transaction or call, boundary lengths on both sides, in any mix with valid calls",
"Tests check one or two refusals in isolation and none through the rpc client.",
["stacks/src/transaction/payload.rs","stacks/src/clarity/impl.rs","stacks/src/transaction/condition.rs","stacks/src/rpc.rs","stacks/src/crypto/c32.rs"],["TokenTransferPayload::encode","LengthPrefixedStr::encode","StringAscii::encode","c32_address_decode","StacksRPC"],observe="returned errors and the simulated nodes' logs")
p("C13","Every call ends, and a handle works again once faults stop",
"Every rpc call returns - with a value or an error, never a panic - once its connection has been answered, refused, reset or closed, and a connection that is never established is given up within a bounded time. After any sequence of faults the same handle, and every clone of it, serves correct answers again as soon as the network and node are healthy, within a bounded number of steps and without being rebuilt.",
["schedules","fault_sequences","histories"],"every history of refused, timed out, reset, truncated, garbled and slow exchanges on a handle shared by any number of threads",
"Liveness under faults needs control over time and the network; the rpc module has no tests.",
["stacks/src/rpc.rs"],["StacksRPC (all methods)"],observe="call return events in simulated time")
p("C14","A fee quote is asked for the transaction that is then sent",
"For every transaction, estimate_fee sends the node the hex of exactly the payload that broadcast would deliver, and an estimated length equal to the length of the transaction's encoding. Quotes come back in the node's order with its exact fees and its rates (as doubles, to the last unit), and setting a quoted fee and nonce changes only those fields of what is later signed and broadcast.",
["inputs","schedules","fault_sequences"],"every transaction, signed or not, every quote list, every interleaving with other calls and every network fault",
"No test reaches estimate_fee; consistency between two requests depends on the whole flow.",
["stacks/src/rpc.rs","stacks/src/transaction/base.rs","stacks/src/transaction/payload.rs"],["StacksRPC::estimate_fee","Codec::len","Codec::hex","Transaction::set_fee"],observe="request bytes at the simulated node")
p("C15","Typed extraction from a response is exact or refused",
"A struct deriving FromTuple filled from a contract response holds, in every field, exactly the value stored under its key in the tuple the node sent - independent of field order, extra fields, nesting and of which contract version answered. A required field that is missing or has another type is an error; it is never filled from another key or with a default, and an optional field holds a value only if the response has that value.",
["inputs","histories"],"every tuple a node may answer with (reordered, extended, missing, retyped and nested fields, boundary values) for every supported field type, across schema changes and interleaved calls",
"Tests extract from fixed tuples of the expected shape.",
["stacks_derive/src/from_tuple.rs","stacks/src/clarity/impl.rs","stacks/src/clarity/mod.rs"],["derive(FromTuple)","Tuple::get","Cast::cast"],observe="extracted struct or error")
p("C16","One broadcast call submits the transaction at most once",
"During one broadcast call at most one complete submission reaches any node, whatever fails - refused, reset before or after the node has read the request, truncated or lost answer, error status, redirect - and the client never re-sends on its own. A submission the caller did not make (after the call has returned, from another thread's transaction, or as a different method) never reaches a node.",
["schedules","fault_sequences"],"every fault at every byte of the exchange, every node answer, every interleaving of concurrent calls",
"Requires a node that fails at a chosen byte and counts what it received; no such test exists.",
["stacks/src/rpc.rs"],["StacksRPC::broadcast"],observe="the simulated nodes' logs per call")
p("C17","Rebuilding the same transaction gives the same bytes and id",
"Building and signing a transaction from the same inputs gives the same bytes, the same signature and the same id every time: again in the same process, on another thread, after a crash and restart, at another time and with other system randomness. So re-broadcasting after a crash re-submits the same transaction, whose id is the one the node reports, and encoding, hashing, cloning or querying a transaction never changes it.",
["inputs","schedules","crash_points","histories"],"every transaction, every crash point between building, signing and broadcasting, every interleaving of threads, clocks and randomness",
"Tests build each transaction once.",
TX+["stacks/src/transaction/signer.rs","stacks/src/crypto/hash.rs","stacks/src/rpc.rs"],["Transaction::sign","Transaction::hash","Transaction::encode","SignatureHash::next_signature"],observe="encoded bytes and submissions across restarts")
p("N01","hex, base58 and c32 codecs are mutually inverse",
"For all byte strings, decoding what was encoded returns the same bytes, with leading zeros preserved.",["inputs"],"all byte strings","Tests sample a few thousand random strings.",
["stacks/src/crypto/hex.rs","stacks/src/crypto/b58.rs","stacks/src/crypto/c32.rs"],["hex_to_bytes","b58_decode","c32_decode"])
p("N02","Display and equality of Clarity values are faithful",
"Two Clarity values of one type compare equal exactly when they hold the same value, and print as Clarity literals.",["inputs"],"all pairs of values","Tests compare a few literals.",
["stacks/src/clarity/macro.rs","stacks/src/clarity/impl.rs"],["PartialEq","Display"])
p("N03","Hash functions conform to their specifications",
"Sha256, double Sha256, Sha512/256 and Hash160 return the digest of their specification for every input.",["inputs"],"all inputs","Tests check a few vectors.",
["stacks/src/crypto/hash.rs"],["Sha256Hash","DSha256Hash","Sha512_256Hash","Hash160"])
p("N04","derive(FromTuple) rejects unsupported structs at compile time",
"A struct with an unsupported field type, an unnamed field or no key attribute does not compile.",["inputs"],"all structs","Compile-fail tests are not in the suite.",
["stacks_derive/src/from_tuple.rs"],["__impl"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
