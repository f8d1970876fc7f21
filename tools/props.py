# Source of properties.jsonl and MANIFEST.json (python3 tools/mk.py writes both)
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None, cmd=None, technique=None, note=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(p={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
                  cmd=cmd, technique=technique, note=note, na=na))

prop("P01", "A nullifier hash is accepted at most once",
  "A Merkle tree's nullifier account accepts each nullifier hash at most once over its whole history, reports every accepted hash as present and no other, and never loses or duplicates one while entries overflow or are moved between its child accounts. The reported nullifier count equals the number of accepted hashes.",
  ["histories", "inputs"], "all sequences of inserts, lookups and pending moves, for any key order, any fill level of the child accounts and any subset of accounts passed",
  "Tests insert a handful of keys in one or two orders; the loss of a key needs a full 65,536-entry child account and a key with a specific rank.",
  ["elusiv/src/state/nullifier.rs", "elusiv/src/map.rs"],
  [("try_insert_nullifier_hash / can_insert_nullifier_hash / move_nullifier_value", "elusiv/src/state/nullifier.rs"), ("sorted insertion with eviction of the maximum", "elusiv/src/map.rs ElusivMap::try_insert")],
  [("child maps", "sorted disjoint key ranges, one per child account", "elusiv/src/state/nullifier.rs"), ("pending value", "the evicted maximum that waits for the next child", "elusiv/src/state/nullifier.rs")],
  ["public methods of NullifierAccount over raw account bytes"], cmd="./run.sh harness p01_nullifier",
  technique="stateful property-based testing against a reference set model",
  note="20k histories from empty plus 11k around one and two full 65,536-entry children per quick run; ranks within a full child are generated, deeper children (3..16) only via the count-limit test.")

prop("P02", "Byte-backed maps behave like a bounded sorted map",
  "For any sequence of operations the on-account map and set types agree with a sorted map of the same capacity: insertion, duplicate detection with the stored value, eviction of the maximum when full, lookup, minimum/maximum, ordered iteration and reset.",
  ["histories", "inputs"], "all operation sequences over all key/value types used, from empty to full",
  "Tests cover a few short sequences with ascending, descending or fixed keys; the order-dependent pointer defects need eviction and reset interleavings.",
  ["elusiv/src/map.rs"], [("ElusivMap", "elusiv/src/map.rs"), ("ElusivSet", "elusiv/src/map.rs")],
  None, ["public methods of the map types"], cmd="./run.sh harness p02_map",
  technique="stateful property-based testing against a BTreeMap model",
  note="66k operation histories in the quick tier; capacities 1..64 and 256, u8..u256 keys.")

prop("P03", "Commitment and metadata queues are FIFO and batch-consistent",
  "The commitment queue and the metadata queue return elements in exactly the order they were accepted, never drop, duplicate or alter one, report full exactly at capacity, and form a batch only from consecutive elements with equal batching rate and fee version.",
  ["histories"], "all enqueue/dequeue/remove/next-batch sequences with any element contents, including wrap-around of the ring",
  "Tests fill and empty the queue once from position zero with equal elements.",
  ["elusiv/src/state/queue.rs", "elusiv/src/state/commitment.rs", "elusiv/src/state/metadata.rs"],
  [("ring queue", "elusiv/src/state/queue.rs"), ("next_batch", "elusiv/src/state/queue.rs")], None, None,
  cmd="./run.sh harness p03_queue", technique="stateful property-based testing against a VecDeque model",
  note="16k histories per quick run, all wrap positions of the 240-slot ring.")

prop("P04", "Commitment buffers reject exactly the last 128 commitments",
  "A commitment buffer rejects a commitment if and only if it is currently among its last 128 accepted entries; acceptance order determines eviction and removing an entry lets exactly that commitment be accepted again.",
  ["histories"], "all insert/remove/lookup sequences including wrap-around and repeated or zero commitments",
  "Tests insert fewer distinct values than the buffer holds or only in one order.",
  ["elusiv/src/buffer.rs", "elusiv/src/state/commitment.rs"], [("RingBuffer", "elusiv/src/buffer.rs")], None, None,
  cmd="./run.sh harness p04_buffer", technique="stateful property-based testing against a bounded-history model",
  note="8k histories per quick run over both buffer accounts.")

prop("P05", "The Merkle tree, its openings and the root window are correct",
  "Inserting commitments in any mix of batch sizes yields exactly the root, sibling openings and active root of a Poseidon Merkle tree over the same leaves in order. A root is accepted exactly while it is one of the last 100 roots, whichever storage child accounts are passed.",
  ["histories", "inputs"], "all insertion histories of batch sizes 1,2,4,8,16 at any position of the 2^20-leaf tree",
  "Tests insert a few batches at the start of the tree and check the root history only with the child accounts missing.",
  ["elusiv/src/state/storage.rs", "elusiv/src/commitment/mod.rs"],
  [("StorageAccount::insert_commitment / get_mt_opening / is_root_valid", "elusiv/src/state/storage.rs"), ("batch hashing", "elusiv/src/commitment/mod.rs")],
  [("root history", "ring of the last 100 roots", "elusiv/src/state/storage.rs")], None,
  cmd="./run.sh harness p05_merkle", technique="model-based testing against an independent Poseidon Merkle tree",
  note="4.2k histories per quick run; positions over the full 2^20 range with the left part represented by arbitrary nodes.")

prop("P06", "Every accepted commitment is hashed and inserted exactly once",
  "Every base commitment accepted for storage and every queued output commitment is hashed to its Poseidon value and inserted into the Merkle tree exactly once with its metadata at the same index, in queue order. Failing, repeated, reordered or adversarial transactions of the pipeline never lose, duplicate or alter one, and honest cranking always empties the queue.",
  ["histories", "inputs", "fault_sequences"], "all interleavings of store, compute, finalize, batch set-up, batch computation and insertion instructions, with dropped, repeated, swapped or altered instructions",
  "Tests run one fixed happy path of a few commitments; losing a commitment needs a failing instruction at a specific stage.",
  ["elusiv/src/processor/commitment.rs", "elusiv/src/state/commitment.rs", "elusiv/src/state/queue.rs", "elusiv/src/state/metadata.rs"],
  [("base commitment and commitment hashing instructions", "elusiv/src/processor/commitment.rs"), ("CommitmentHashingAccount", "elusiv/src/state/commitment.rs")],
  None, ["instructions executed in an in-process runtime, account bytes"], cmd="./run.sh harness p06_pipeline",
  technique="stateful property-based testing of instruction histories against a model of the pipeline and an independent Poseidon tree",
  note="2k histories per quick run; tree start only (first leaves), the deep positions are covered by P05.")

prop("P08", "Proof verification decides exactly the Groth16 equation",
  "A verification of a proof over canonical points ends after exactly the planned number of computation instructions with the verdict true if the Groth16 pairing equation holds for the verifying key, the proof and the public inputs, and with false otherwise. This holds for all public inputs and group elements including zero and infinity, however the computation instructions are grouped into transactions, interleaved with other verifications or timed relative to the fee transfer and the proof.",
  ["inputs", "histories", "schedules"], "all verifying keys, public inputs (1..14), proof points and groupings of the computation instructions",
  "Tests verify a few fixed proofs in one grouping; errors for special public inputs, points or instruction boundaries need specific values at specific rounds.",
  ["elusiv/src/proof/verifier.rs", "elusiv/src/proof/vkey.rs", "elusiv/src/processor/proof.rs", "elusiv/src/fields.rs"],
  [("verify_partial", "elusiv/src/proof/verifier.rs"), ("compute_verification", "elusiv/src/processor/proof.rs"), ("VerifyingKey", "elusiv/src/proof/vkey.rs")],
  [("verification account", "partial computation state (instruction, round, step, RAMs, lazies)", "elusiv/src/state/proof.rs")],
  ["verify_partial on account bytes; is_verified after ComputeVerification transactions"], cmd="./run.sh harness p08_groth16",
  technique="property-based testing against the Groth16 equation over scalars (keys and proofs with known trapdoor)",
  note="2.3k complete verifications per quick run, 1.5k direct and 800 through transactions; points are assumed canonical and in the group (the program does not check it).")

prop("P09", "A proof authorises exactly the send the prover committed to",
  "A proof for one send leads to a settlement only for the same nullifiers, roots, output commitment, total amount, token, fee version and recent-commitment index, and the same recipient, recipient type, identifier, reference, memo, optional fee, metadata and encrypted owner data. Any request or finalization that differs in one of these from what the prover signed, or that announces a position after the one at which the output commitment can land, is rejected or verified as false, and the unaltered send is accepted.",
  ["inputs"], "all sends and all single alterations by the submitting warden, with or without recomputed hash",
  "Tests compare the public signals of one example; a dropped or swapped item only matters with a prover whose proof is real and a request that differs.",
  ["elusiv/src/types.rs", "elusiv/src/processor/proof.rs"],
  [("PublicInputs::public_signals / generate_hashed_inputs", "elusiv/src/types.rs"), ("finalize_verification_send", "elusiv/src/processor/proof.rs")],
  None, ["is_verified, result of FinalizeVerificationSend, balances"], cmd="./run.sh harness p09_binding",
  technique="metamorphic property-based testing: real proofs (known trapdoor), single-item alterations of the request",
  note="1.5k sends per quick run; amount and fee are bound by their sum only (protocol design), the Solana Pay flag is not bound.")

prop("P10", "Deposits and hashing move exactly the prescribed funds",
  "A deposit moves exactly the amount plus the (possibly subsidised) fees from the sender and fee payer to pool and collector, and cranking wardens receive exactly the documented reward per executed computation instruction, once. The pool therefore always holds every deposited amount plus the computation fees it still owes, for every token, and no instruction of the hashing pipeline moves anything else.",
  ["histories", "inputs"], "all histories of deposits (lamports and tokens, all fee payers, tokens, prices and batching rates), hashing instructions by any warden and repetitions",
  "Tests check single transfers with mocked accounts; solvency of the pool is a sum over a whole history of deposits and compensations.",
  ["elusiv/src/processor/commitment.rs", "elusiv/src/processor/utils.rs", "elusiv/src/state/fee.rs"],
  [("store_base_commitment", "elusiv/src/processor/commitment.rs"), ("compute / finalize base commitment and commitment hashes", "elusiv/src/processor/commitment.rs"), ("ProgramFee", "elusiv/src/state/fee.rs")],
  None, ["balances of all accounts before and after every transaction"], cmd="./run.sh harness p10_deposits",
  technique="stateful property-based testing of histories against an exact balance model",
  note="3k histories per quick run; prices, fees and the batching rate are constant within one history.")

prop("P11", "Settling a send moves exactly the prescribed amounts once",
  "The settlement of a private send with a valid proof pays out amount, optional fee and network fee and refunds exactly once per verification and per nullifier, and queues its output commitment; an invalid one forfeits the deposits. No transaction, whatever instructions it combines, moves other funds of the pool or the fee collector, and every accepted verification can be settled.",
  ["histories", "inputs"], "all transactions and histories over initialisation, fee transfer, settlement and plain transfers of several concurrent sends; lamports and tokens, wallets, (associated) token accounts, invalid recipients, Solana Pay, memos, optional fees",
  "The settlement is split over several instructions and transactions that anyone can combine, drop, repeat or reorder; tests exercise isolated instructions.",
  ["elusiv/src/processor/proof.rs", "elusiv/src/processor/utils.rs", "elusiv/src/state/fee.rs"],
  [("FinalizeVerificationSend / InsertNullifier / TransferLamports / TransferToken", "elusiv/src/processor/proof.rs"), ("instruction order enforcement", "elusiv/src/processor/proof.rs enforce_finalize_send_instructions")],
  [("VerificationState", "progress of a verification", "elusiv/src/state/proof.rs")], ["balances of all accounts before and after every transaction"], cmd="./run.sh harness p11_settlement",
  technique="stateful property-based testing of transaction histories against a balance model",
  note="15k histories per quick run (also boundary amounts and spending from two trees); the outcome of the proof verification is injected (P08 decides it), token prices change within a history.")

prop("P12", "Accepted fee configurations charge the documented fees",
  "Every fee configuration the program accepts yields fees without wrap-around that equal the documented formulas (rounded in favour of the pool), cover every compensation they promise and are never smaller than the subsidy, for all batching rates and input counts. Configurations violating this are rejected and a stored one never changes; basis-point fees equal floor(amount * bps / 10000) for every amount, and a send is accepted only if its fee reaches the sum these formulas demand, which is also what its settlement pays.",
  ["inputs", "configurations"], "all fee configurations over the full u64 range, batching rates, numbers of public inputs, amounts and setup instructions",
  "Tests compute fees for one fixed configuration.",
  ["elusiv/src/state/fee.rs", "elusiv/src/processor/accounts.rs"],
  [("ProgramFee", "elusiv/src/state/fee.rs"), ("init_new_fee_version", "elusiv/src/processor/accounts.rs")],
  None, ["public methods of ProgramFee, result of InitNewFeeVersion, accepted sends and balances under any accepted configuration"], cmd="./run.sh harness p12_fees",
  technique="property-based testing against 128-bit reference formulas",
  note="163k configurations per quick run.")

prop("P13", "Amounts keep their token, limits and exchange value",
  "Token amounts are accepted only within the limits of the token table and combined only with amounts of the same token without wrap-around. Conversions between lamports and tokens equal the exact exchange value of the two prices up to a negligible relative error, and only the token's own fresh price account, mint and token accounts are ever used.",
  ["inputs"], "all amounts, tokens, prices (mantissa, exponent, confidence, status, age) and account contents",
  "Tests convert a few amounts at one price; precision loss and overflow depend on exponents and magnitudes.",
  ["shared/elusiv-types/src/tokens.rs", "Token.toml"],
  [("TokenPrice / Price / Token / verify_token_account", "shared/elusiv-types/src/tokens.rs")],
  None, ["public functions of the tokens module"], cmd="./run.sh harness p13_tokens",
  technique="property-based testing against exact rational arithmetic, round trips",
  note="350k cases per quick run; the confidence interval is at most the price.")

prop("P14", "A send is settled atomically or not at all",
  "A transaction either settles a verified send completely (every nullifier spent, value paid out, output commitment queued, verification closed) or leaves the verification, its nullifiers and the queue untouched, whatever instructions it contains and however they are invoked. Nullifiers are never spent for an invalid proof.",
  ["histories", "inputs"], "all transactions formed from the settlement instructions of several concurrent verifications: dropped, repeated, reordered, exchanged, interleaved with foreign instructions, invoked via CPI or by another program",
  "Each instruction on its own is only an unchecked step; the guarantee arises from the introspection of the other instructions of the transaction, which tests replace by hand-written instruction lists.",
  ["elusiv/src/processor/proof.rs", "elusiv/src/processor/utils.rs"],
  [("enforce_finalize_send_instructions", "elusiv/src/processor/proof.rs"), ("InsertNullifier / TransferLamports / TransferToken state checks", "elusiv/src/processor/proof.rs")],
  [("VerificationState", "progress of a verification", "elusiv/src/state/proof.rs")], ["verification accounts, nullifier accounts and commitment queue before and after every transaction"], cmd="./run.sh harness p14_atomicity",
  technique="stateful property-based testing of generated (irregular) transactions against an all-or-nothing invariant",
  note="10k histories per quick run, 1-3 concurrent verifications; the outcome of the proof verification is injected (P08 decides it).")

prop("P17", "Verifying keys change only through their authority",
  "A verifying key is changed only by its authority (if one is set), never after it was frozen, and keys cannot be created twice or for unknown ids. The version in use is replaced as a whole by the data account announced before, its bytes are exactly the uploaded packets, earlier data accounts are closed in favour of the signer, and no other account or fund changes.",
  ["histories", "inputs"], "all histories of vkey instructions by several people with missing signatures, wrong data accounts, packet positions and sizes",
  "Tests run a single creation; authority, freezing and replacement interact over a history.",
  ["elusiv/src/processor/vkey.rs", "elusiv/src/state/vkey.rs"],
  [("vkey instructions", "elusiv/src/processor/vkey.rs"), ("VKeyAccount", "elusiv/src/state/vkey.rs")],
  [("VKeyAccount", "authority, frozen flag, version, active and upcoming data account", "elusiv/src/state/vkey.rs")], ["account bytes and balances after every transaction"], cmd="./run.sh harness p17_vkeys",
  technique="stateful property-based testing of histories against a model of the key's life cycle",
  note="10k histories per quick run; keys with no or one public input.")

prop("P19", "Requests are accepted iff they satisfy all protocol conditions",
  "A send request starts a verification if and only if every protocol condition holds for its public inputs (canonical field elements, known recent or closed roots, unspent and distinct nullifiers, fresh output commitment, amounts, fees, token, batching, vkey, recipient binding). A store request is accepted if and only if its commitment, amount, token, fee version, batching rate and recent-commitment index are acceptable.",
  ["inputs", "histories"], "all requests near the boundary of acceptance in arbitrary states of the storage, nullifier, buffer and governor accounts",
  "Every condition has its own boundary over adversarial inputs; tests probe one or two hand-picked values per condition.",
  ["elusiv/src/processor/proof.rs", "elusiv/src/processor/commitment.rs", "elusiv/src/proof/verifier.rs", "elusiv/src/types.rs"],
  [("check_join_split_public_inputs / check_shared_public_inputs", "elusiv/src/processor/proof.rs"), ("StoreBaseCommitment checks", "elusiv/src/processor/commitment.rs")],
  None, ["result of InitVerification / StoreBaseCommitment"], cmd="./run.sh harness p19_acceptance",
  technique="property-based testing of near-boundary requests against an independently written acceptance predicate",
  note="20k send and 12k store requests per quick run; the same tree passed in both slots is undecided.")

prop("P16", "Child accounts are only attached to free slots and never reassigned",
  "An account becomes child account of a (storage, nullifier or metadata) account only if the slot is free and the account is owned by the program, has exactly the child's size, is rent-exempt and unused; the slot then keeps this account forever and the account is child of no other slot. A new nullifier child starts as an empty map, and nothing else changes; every other attempt has no effect.",
  ["inputs", "histories"], "all histories of attach attempts by anybody with accounts that differ in owner, size, rent, content, previous use and slot",
  "A reassigned or doubly used child account forgets nullifiers or tree nodes; tests attach one fresh account per slot.",
  ["elusiv/src/processor/accounts.rs", "shared/elusiv-proc-macros/src/elusiv_account.rs", "shared/elusiv-types/src/accounts.rs"],
  [("open / enable child account", "elusiv/src/processor/accounts.rs"), ("ParentAccount / ChildAccount", "shared/elusiv-types/src/accounts.rs")],
  [("child pubkeys", "slot table of every parent account", "shared/elusiv-types/src/accounts.rs")], ["parent and child account bytes after every transaction"], cmd="./run.sh harness p16_children",
  technique="stateful property-based testing of attach histories against a slot-table model in a mini Solana runtime",
  note="6,000 histories per quick run.")

prop("P18", "Program accounts are created once, at their own address, properly initialized",
  "Anybody can create each account of the program for its rent alone, at the account's own address and with its documented initial content, whatever Lamports were sent to the address before; an account that exists is never created or initialized again. Repeated, misdirected or unavailable instructions have no effect.",
  ["inputs", "histories"], "all histories of setup instructions in any order by anybody, with addresses funded in advance, wrong addresses and repetitions",
  "An account that can be reinitialized loses nullifiers, queue entries or governance; tests create every account once on a fresh ledger.",
  ["elusiv/src/processor/accounts.rs", "shared/elusiv-utils/src/lib.rs", "elusiv/src/state/fee.rs", "elusiv/src/state/governor.rs"],
  [("create_pda_account / open_pda_account*", "shared/elusiv-utils/src/lib.rs"), ("OpenSingleInstanceAccount / CreateNewAccountsV1 / InitNewFeeVersion / SetupGovernorAccount / OpenNullifierAccount", "elusiv/src/processor/")],
  None, ["all account bytes, owners and balances after every transaction"], cmd="./run.sh harness p18_setup",
  technique="stateful property-based testing of setup histories against a model of the documented initial accounts",
  note="Covers every account kind of the program; addresses funded in advance with below, exactly and above the rent.")

prop("P20", "The active tree is replaced exactly when full, without losing a commitment",
  "The active Merkle tree can be closed if and only if it is full or the next batch would fill (or exceed) it, and its final root is then recorded once, for its own nullifier account. Afterwards no root of it is valid in the active tree, and the next tree contains exactly the commitments inserted later, in order, each with its metadata; no commitment in the queue is lost.",
  ["histories", "inputs", "schedules"], "all interleavings of deposits, batch set-up, hashing, finalization and tree resets around the end of a tree, over several trees",
  "The transition happens once per 2^20 commitments, so no test reaches it, and any order of permissionless instructions may surround it.",
  ["elusiv/src/processor/commitment.rs", "elusiv/src/processor/accounts.rs", "elusiv/src/state/storage.rs", "elusiv/src/state/metadata.rs"],
  [("reset_active_merkle_tree / is_mt_full", "elusiv/src/processor/accounts.rs"), ("init / finalize commitment hashing", "elusiv/src/processor/commitment.rs"), ("StorageAccount::reset / is_root_valid", "elusiv/src/state/storage.rs")],
  [("StorageAccount.next_commitment_ptr / trees_count / root history", "state of the active tree", "elusiv/src/state/storage.rs"), ("NullifierAccount.root", "final root of a closed tree", "elusiv/src/state/nullifier.rs")],
  ["storage, nullifier, metadata, queue accounts after every transaction"], cmd="./run.sh harness p20_rollover",
  technique="model-based stateful property-based testing (reference tree, queue and metadata) over several trees in a mini Solana runtime",
  note="The fill level near the end is set by hand. Two known findings: a tree can be closed while a batch is set up or hashed for it.")

prop("P15", "No account can stand in for another one",
  "Every instruction of the program works only with the very accounts it names: a transaction in which an account is replaced by another one (a look-alike, another user's, another verification's, a foreign program's) or in which a required signature is missing is rejected, has no effect, or has exactly the effect of the original. In particular nobody obtains Lamports, tokens or another user's verification that way.",
  ["inputs", "programs"], "all replacements of one or two accounts, or of everything of a person, vault, token or tree, in the transactions of complete deposit, hashing, send, settlement and administration histories, and all dropped signatures",
  "Account confusion is the typical attack on such programs and one unchecked account of one instruction suffices; the existing account fuzzing is disabled and covers few instructions.",
  ["elusiv/src/instruction.rs", "shared/elusiv-types/src/accounts.rs", "shared/elusiv-derive/src/elusiv_instruction.rs", "elusiv/src/processor/"],
  [("account checks generated from the instruction attributes", "elusiv/src/instruction.rs"), ("explicit account checks", "elusiv/src/processor/"), ("verify_account", "shared/elusiv-types/src/accounts.rs")],
  None, ["all account bytes, owners and balances after every transaction"], cmd="./run.sh harness p15_accounts",
  technique="metamorphic property-based testing: account substitution in recorded transactions, compared with the effect of the original",
  note="300k substitutions per quick run over 85 recorded transactions of complete histories.")

prop("P23", "The registry assigns each warden one identity and records it exactly",
  "Every warden key registers at most once, gets the next consecutive id, and its account, map entry and place in the network record exactly what its own key signed, up to the capacity of the network. Afterwards only that key changes its state and lookup table (the activation time changes exactly with the state), only its operator confirms it, and operators register once; nothing else changes any of it and nobody closes an account.",
  ["histories", "inputs"], "all histories of initialisation, registrations, updates, operator registrations and confirmations by several people, with wrong ids, keys, signers, accounts, any configuration and addresses funded in advance",
  "The tests of the warden program register a few default wardens with equal ids and places; identity mix-ups need several wardens, full networks and adversarial ids.",
  ["elusiv-warden-network/src/processor/basic_warden.rs", "elusiv-warden-network/src/processor/operator.rs", "elusiv-warden-network/src/processor/accounts.rs", "elusiv-warden-network/src/network.rs"],
  [("register_basic_warden / update_basic_warden_*", "elusiv-warden-network/src/processor/basic_warden.rs"), ("register_warden_operator / confirm_basic_warden_operation", "elusiv-warden-network/src/processor/operator.rs"), ("try_add_member", "elusiv-warden-network/src/network.rs")],
  [("WardensAccount.next_warden_id", "next id", "elusiv-warden-network/src/warden.rs"), ("BasicWardenNetworkAccount", "members in order of registration", "elusiv-warden-network/src/network.rs")],
  ["bytes and balances of all accounts after every transaction"], cmd="./run.sh warden p23_registry",
  technique="stateful property-based testing against a model that predicts every account byte, in a mini Solana runtime",
  note="Six people, up to 25 transactions per history; the last places of the network are a test of their own. An open operator slot is taken by whoever confirms first (by design).")

prop("P24", "Warden metadata is attested only by appointed attesters, and exactly",
  "An attestation is accepted if and only if it is signed by the key of a warden who was appointed as attester, concerns another existing warden and names that warden's own place in the network. It then records the attested metadata, whether the warden had claimed the same, and the region in the warden's own place; nobody can appoint or dismiss attesters without the attester authority, not even by registering as one.",
  ["histories", "inputs"], "all histories of attestations and appointment attempts with any metadata, wrong attesters, wardens, places and accounts",
  "No test exists for attestations; the relation of warden id and place in the network is only visible with several wardens.",
  ["elusiv-warden-network/src/processor/basic_warden.rs", "elusiv-warden-network/src/network.rs"],
  [("attest_basic_warden_metadata / add_metadata_attester / revoke_metadata_attester", "elusiv-warden-network/src/processor/basic_warden.rs"), ("update_region", "elusiv-warden-network/src/network.rs")],
  [("warden_features.attestation", "the warden is an attester", "elusiv-warden-network/src/warden.rs"), ("is_metadata_valid", "result of the last attestation", "elusiv-warden-network/src/warden.rs")],
  ["bytes of all accounts after every transaction"], cmd="./run.sh warden p24_attestation",
  technique="stateful property-based testing against a model that predicts every account byte",
  note="The attester authority is the zero key, which cannot sign: appointed attesters are set by the harness, and appointments can only be checked to be refused.")

prop("P25", "Warden statistics count every tracked activity once, on its day",
  "A tracking instruction counts exactly one activity of the warden, in the statistics of its kind and of the current day and year, if and only if the instruction directly before it is an activity of the elusiv program that this warden performed; otherwise nothing is counted and the transaction fails only on request. The day and year are those of the calendar for every time from 2000 to 2099, and counters never wrap.",
  ["inputs", "histories"], "all times, all transactions with tracked, untracked, foreign, empty or repeated instructions, all warden positions, years and counter values",
  "Tests look only at success or failure on the day they run; leap days, year boundaries, counter limits and the counters themselves are never observed.",
  ["elusiv-warden-network/src/processor/basic_warden.rs", "elusiv-warden-network/src/processor/utils.rs", "elusiv-warden-network/src/warden.rs"],
  [("track_basic_warden_stats / open_basic_warden_stats_account", "elusiv-warden-network/src/processor/basic_warden.rs"), ("unix_timestamp_to_day_and_year", "elusiv-warden-network/src/processor/utils.rs"), ("WardenStatistics::inc", "elusiv-warden-network/src/warden.rs")],
  [("BasicWardenStatsAccount", "activity per kind and day of one year", "elusiv-warden-network/src/warden.rs")],
  ["bytes of the statistics account after every transaction", "unix_timestamp_to_day_and_year"], cmd="./run.sh warden p25_statistics",
  technique="differential testing of the calendar and stateful property-based testing of tracking transactions against a counter model",
  note="All days of the century are enumerated; the elusiv program is a stub that accepts everything.")

prop("P26", "The APA genesis seats and confirms exactly its six wardens",
  "In the application phase each registered warden obtains at most one of the six seats, with the exchange key of its own quote, and completes only its own seat; the phase ends exactly when all six quotes are complete. Then each seat is confirmed once, only by its exchange key and with the hash of all quotes in seat order, and the network is confirmed exactly when all six are; no other transaction changes it.",
  ["histories", "schedules"], "all histories of applications, completions and confirmations in any order by wardens and others, with any quotes, equal exchange keys, wrong ids, messages, phases and accounts",
  "The only test walks through one order in which warden ids and seats coincide.",
  ["elusiv-warden-network/src/network.rs", "elusiv-warden-network/src/processor/apa_warden.rs"],
  [("start_application / complete_application / confirm_others", "elusiv-warden-network/src/network.rs"), ("genesis instructions", "elusiv-warden-network/src/processor/apa_warden.rs")],
  [("ApaWardenNetworkAccount", "seats, quotes, exchange keys, confirmations", "elusiv-warden-network/src/network.rs"), ("ApaWardenAccount", "seat of a warden", "elusiv-warden-network/src/warden.rs")],
  ["bytes of all accounts after every transaction", "is_application_phase / is_confirmation_phase / is_confirmed"], cmd="./run.sh warden p26_genesis",
  technique="stateful property-based testing against a model of the three phases that predicts every account byte",
  note="Nine people, up to 60 transactions per history; two thirds of the histories reach the confirmation phase.")

prop("P27", "APA proposals are recorded once, under the next id, with verified authorship",
  "A proposal is accepted if and only if it has the next id, its token constraint names an existing token and, in the role of a token freezing authority, its proponent is the freeze authority of that token's mint. It is recorded unchanged except for its proponent (the signer) and timestamp (the current time), no earlier proposal changes, and the map account of its target exists afterwards and names the target's proposal of the highest level.",
  ["inputs", "histories"], "all histories of proposals with any ids, roles, tokens, mints, freeze authorities, payers and addresses funded in advance",
  "Tests make three default proposals and never use the freezing role.",
  ["elusiv-warden-network/src/processor/apa.rs", "elusiv-warden-network/src/apa.rs"],
  [("propose_apa_proposal", "elusiv-warden-network/src/processor/apa.rs")],
  [("ApaProposalsAccount.number_of_proposals", "next id", "elusiv-warden-network/src/apa.rs"), ("ApaTargetMapAccount", "proposal of a target", "elusiv-warden-network/src/apa.rs")],
  ["bytes and balances of all accounts after every transaction"], cmd="./run.sh warden p27_proposals",
  technique="stateful property-based testing against a model that predicts every account byte",
  note="Known finding: the map account of a target never names a proposal.")

prop("P21", "Account state keeps its layout, and every view reads what was written",
  "Every account has its fixed layout of bytes: each field, array element and child key is read back as it was written, from its own bytes, and writing it changes no other byte; clients decode the same values from the same bytes. Values held in memory over a computation (lazy values, RAM and arrays) are stored completely, an account is recognised only at the address of its own seed, key, offset and bump, and exactly the recorded child accounts are attached, in order, whichever are missing.",
  ["inputs", "histories"], "all account types, all field values and indices, all sequences of reads, writes, frame changes and stores, all seeds, keys, offsets and bumps, all subsets of child accounts with faults",
  "Tests read and write a few fields of toy accounts; overlapping fields or a lost write depend on the type, the index and the order of accesses.",
  ["shared/elusiv-proc-macros/src/elusiv_account.rs", "shared/elusiv-types/src/accounts.rs", "shared/elusiv-types/src/bytes.rs", "elusiv/src/state/", "elusiv/src/types.rs"],
  [("elusiv_account: generated getters, setters, eager representation", "shared/elusiv-proc-macros/src/elusiv_account.rs"), ("LazyRAM / LazyArray / JITArray / Lazy", "elusiv/src/types.rs, elusiv/src/state"), ("PDAAccount::find / verify_account, find_child_accounts", "shared/elusiv-types/src/accounts.rs"), ("setup_public_inputs / setup", "elusiv/src/state/proof.rs")],
  None, ["account bytes, getters, setters and eager representations"], cmd="./run.sh client p21_state",
  technique="model-based property-based testing of account views against a byte model",
  note="460k cases per quick run over all accounts of the privacy program; accounts of the warden network are checked byte by byte in P23-P27.")

prop("P22", "Values, requests and instructions have one exact encoding",
  "Every field element, curve point, request and instruction is encoded in its one documented format with exactly the declared size and decodes to the same value, and every decodable input encodes to itself. Conversions between integers, Montgomery form, decimal strings and limbs represent the same number, and byte helpers find, check and split exactly or refuse.",
  ["inputs"], "all 256 bit numbers (also around the field moduli), points, proofs, requests with any number of inputs, all instructions with any fields, any trailing bytes",
  "Tests encode single values; clients, wardens and the on-chain program only agree if the encoding is the same for every value and every instruction.",
  ["elusiv/src/fields.rs", "elusiv/src/types.rs", "elusiv/src/bytes.rs", "elusiv/src/instruction.rs", "shared/elusiv-types/src/bytes.rs"],
  [("Wrap, G1A, G2A, G2HomProjective, u256/fr conversions", "elusiv/src/fields.rs"), ("RawU256, Proof, public inputs, split_u256_into_limbs", "elusiv/src/types.rs"), ("find, contains, is_zero, div_ceiling, ...", "elusiv/src/bytes.rs"), ("ElusivInstruction", "elusiv/src/instruction.rs")],
  None, ["encoded bytes and decoded values"], cmd="./run.sh client p22_encodings",
  technique="round-trip and differential property-based testing against encoders written independently",
  note="450k cases per quick run; points are arbitrary coordinate bytes, since the program stores them unchecked.")

prop("P07", "Computations split over transactions compute exactly the whole",
  "Hashing carried out in parts over several transactions gives exactly the result of the computation as a whole: each Poseidon round from any state, the hash of every base commitment, and for every batching rate, leaf position and sibling path all hashes of the batch and of its path up to the root. The announced parts cover every round exactly once and in order, none exceeds its compute budget, none is needless, and a part after the last one is refused and changes nothing.",
  ["inputs", "histories"], "all states and rounds, all requests, batching rates 0-4, positions in the tree, siblings and commitments, accounts used before, all lists of round costs and public inputs",
  "Tests hash few fixed values; a mistake in a rarely used rate, position or round boundary shows only for particular inputs.",
  ["elusiv/src/commitment/", "elusiv/src/state/commitment.rs", "shared/elusiv-computation/src/lib.rs", "elusiv/src/proof/verifier.rs"],
  [("binary_poseidon_hash_partial / compute_*_hash_partial", "elusiv/src/commitment/poseidon_hash.rs, elusiv/src/commitment/mod.rs"), ("BaseCommitmentHashingAccount::setup, CommitmentHashingAccount::setup/reset/next_hashing_state/save_finished_hash", "elusiv/src/state/commitment.rs"), ("compute_unit_instructions", "shared/elusiv-computation/src/lib.rs"), ("prepare_public_inputs_instructions", "elusiv/src/proof/verifier.rs")],
  [("CommitmentHashingAccount.instruction / round / state", "progress of a batch", "elusiv/src/state/commitment.rs")],
  ["hash states, hashing accounts and the lists of parts"], cmd="./run.sh harness p07_partial",
  technique="differential property-based testing against a reference Poseidon, with accounts stored between all parts",
  note="The reference derives constants and matrix from the published LFSR. Partial verification of proofs is P08.")

prop("P28", "Clients build the transactions and fees the program demands",
  "The client library builds, from the data and the accounts the program leaves open, exactly the instructions that the program accepts: the same bytes, the same accounts in the same order with the same privileges. The fee it computes for a send exists for every amount and is the fee the program demands, it reads metadata of all commitments as stored, foretells the movements of nullifier-hashes that the program demands, and it splits keys and public inputs into parts as the program does.",
  ["inputs", "histories"], "all recorded transactions of complete histories, all instructions with any arguments and numbers of child accounts, all amounts, prices, optional fees and fee parameters, all positions of metadata",
  "The tests of the builders compare with themselves, and the fee is tested with a few amounts; a wrong fee or account only shows as refused transactions or stuck funds.",
  ["shared/elusiv-derive/src/elusiv_instruction.rs", "elusiv/src/instruction.rs", "elusiv/src/types.rs", "elusiv/src/state/metadata.rs", "elusiv/src/proof/verifier.rs"],
  [("ElusivInstruction builders", "elusiv/src/instruction.rs, shared/elusiv-derive/src/elusiv_instruction.rs"), ("compute_fee_rec and compute_fee_rec_lamports", "elusiv/src/types.rs"), ("precomputed_input_preparation / SendQuadraVKey", "elusiv/src/proof/")],
  None, ["built instructions, computed fees, decoded metadata"], cmd="./run.sh client p28_client",
  technique="differential property-based testing of the builders against transactions accepted in recorded histories, and of fees against the program's equation",
  note="Recorded histories cover all user-visible transactions; the rest is compared with hand-built account lists.")

prop("P29", "The pool covers every unspent commitment, which can be withdrawn once",
  "Whatever is deposited, hashed, spent and claimed in whatever order, the pool holds in every token at least the sum of all unspent commitments plus, in lamports, all compensations it still owes. Each inserted commitment can be withdrawn by whoever knows its secret, and never twice, so that all deposits can be withdrawn until the pool owes nothing.",
  ["histories", "inputs"], "all histories of deposits, base and commitment hashing, sends with one to four inputs and change, failed and forged proofs, double spends and concurrent verifications by several fee payers, all amounts, tokens, batching rates and fee parameters",
  "Solvency is a sum over the whole history of interleaved instructions of many users; every test runs one instruction or flow with balances of its own.",
  ["elusiv/src/processor/proof.rs", "elusiv/src/processor/commitment.rs", "elusiv/src/state/nullifier.rs", "elusiv/src/state/storage.rs", "elusiv/src/state/fee.rs"],
  [("deposit and its compensation", "elusiv/src/processor/commitment.rs store_base_commitment / finalize_base_commitment_hash"), ("spend, change and refund", "elusiv/src/processor/proof.rs"), ("inserted nullifiers", "elusiv/src/state/nullifier.rs"), ("roots and their history", "elusiv/src/state/storage.rs")],
  [("PoolAccount", "holds all deposited funds", "elusiv/src/state/governor.rs"), ("StorageAccount", "inserted commitments", "elusiv/src/state/storage.rs")], ["balances of the pool after each transaction"], cmd="./run.sh harness p29_solvency",
  technique="stateful property-based testing of whole histories (deposit, hash, spend, withdraw) with an invariant over a model of all notes, a final withdrawal of every note",
  note="The harness plays the circuit: a proof is valid iff its prover knows the spent commitments, which are in the tree with the claimed root.")

prop("P30", "The computation compiler preserves the meaning of each program",
  "Every program of the computation language, compiled into partial computations and executed round by round with only its memory kept in between, computes the result, the state and the side effects of its direct execution. It keeps its memory frames balanced and the announced numbers of rounds and transactions, and no transaction exceeds its budget of compute units.",
  ["programs", "inputs"], "all programs of the language (nested scopes, loops, conditions, partial calls, early returns, two types of values, several computations that call each other), any arguments, state and former content of the memory",
  "The tests compile a handful of programs; whether a value survives from a part to the next one depends on the shape of the whole program.",
  ["elusiv/elusiv-interpreter/src/parser.rs", "elusiv/elusiv-interpreter/src/grammar.rs", "elusiv/elusiv-interpreter/src/interpreter.rs", "elusiv/elusiv-interpreter/src/storage.rs", "elusiv/elusiv-interpreter/src/lib.rs", "shared/elusiv-computation/src/lib.rs"],
  [("elusiv_computations!", "elusiv/elusiv-interpreter/src/lib.rs"), ("scopes, memory and rounds", "elusiv/elusiv-interpreter/src/interpreter.rs, storage.rs"), ("parsing", "elusiv/elusiv-interpreter/src/parser.rs, grammar.rs"), ("compute unit optimisation", "shared/elusiv-computation/src/lib.rs compute_unit_optimization")],
  [("RAM", "values kept between two rounds", "elusiv/elusiv-interpreter/src/storage.rs")], ["result, state and memory after each round of the compiled computation"], cmd="./run.sh compiler p30_compiler",
  technique="grammar-based generation of programs, compiled with the macro of the tree and compared round by round with an independent reference evaluator of the same program",
  note="700 programs per quick run, 14,000 in the thorough tier.")

prop("P31", "Warden network clients build and read exactly what the program demands",
  "The client library of the warden network builds for every instruction exactly the bytes and the accounts (order and privileges) that its program demands. The texts, options and other values it encodes have the documented fixed sizes and decode to the same value, and too long texts are refused. Every account of the program is represented completely from its own bytes at the address of its own seed, and every IANA area maps to its documented region.",
  ["inputs", "histories"], "all instructions with any arguments, histories of accepted transactions, all texts up to and beyond their limits (with characters of several bytes), any bytes of every account, all time zone areas",
  "The program is only usable through what clients build and read; the tests encode no text and build no instruction of this program.",
  ["elusiv-warden-network/src/instruction.rs", "elusiv-warden-network/src/warden.rs", "elusiv-warden-network/src/network.rs", "elusiv-warden-network/src/apa.rs", "shared/elusiv-derive/src/elusiv_instruction.rs"],
  [("ElusivWardenNetworkInstruction builders", "elusiv-warden-network/src/instruction.rs"), ("FixedLenString", "elusiv-warden-network/src/warden.rs"), ("WardenRegion::from_tz_timezone_area", "elusiv-warden-network/src/warden.rs"), ("eager representations", "shared/elusiv-proc-macros/src/elusiv_account.rs")],
  None, ["built instructions, encoded and decoded values, represented accounts"], cmd="./run.sh warden p31_clients",
  technique="differential property-based testing of builders and readers against hand-built instructions, accepted transactions and the model's bytes of each account",
  note="Addresses are derived in the check from the documented seeds.")

prop("P32", "The derive and account macros implement every declaration",
  "Whatever types, accounts and instructions a program declares, the macros give each type its constant size and a decoder for exactly its encodings, and each account exclusive, complete and non-overlapping access to its fields, its eager view, its children and its own address. An instruction is built with and accepted with exactly the declared accounts in their order, and its processor is reached only if every declared signer, owner, key, address, size and child is the right one.",
  ["programs", "inputs"], "all declarations in the documented syntax (nested structs, generics, enums with variants of any size, options and arrays; accounts with single, array and lazy fields, children and computations; instructions with every kind, flag, key and offset of accounts), any values, account bytes, addresses and lists of accounts",
  "Every guard of both programs is generated by these macros; the tests expand a few fixed declarations and check single values.",
  ["shared/elusiv-derive/src/elusiv_instruction.rs", "shared/elusiv-derive/src/borsh_serde_sized.rs", "shared/elusiv-derive/src/pda_account.rs", "shared/elusiv-derive/src/enum_variant.rs", "shared/elusiv-proc-macros/src/elusiv_account.rs", "shared/elusiv-types/src/accounts.rs", "shared/elusiv-types/src/bytes.rs"],
  [("#[derive(ElusivInstruction)]", "shared/elusiv-derive/src/elusiv_instruction.rs"), ("#[elusiv_account]", "shared/elusiv-proc-macros/src/elusiv_account.rs"), ("#[derive(BorshSerDeSized, EnumVariantIndex, PDAAccount)]", "shared/elusiv-derive/src/"), ("ParentAccount::find_child_accounts, PDAAccount", "shared/elusiv-types/src/accounts.rs")],
  None, ["sizes, decoded values, account bytes after writes, built instructions, accepted and refused calls with what reaches the processor"], cmd="./run.sh macros p32_macros",
  technique="grammar-based generation of declarations, expanded and compiled with the macros of the tree, and compared in random calls with an independent model of the same declaration",
  note="160 declarations per quick run, 2,000 in the thorough tier.")
