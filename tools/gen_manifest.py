#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when it has an entry in CLAIMS."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, EX, FE = "model_checking", "exploration", "fault_enumeration"
CLAIMS = {
 "C01": (MC, "stateless exploration of all operation histories on the real store against a reference map",
   "bounded history depth over colliding key/type alphabets; real badger in-memory store"),
 "C02": (MC, "stateless exploration of all operation histories on the real store; every index query compared with a filter over a reference map",
   "bounded history depth; one indexed field per supported kind; single-selector lists"),
 "C03": (EX, "exhaustive enumeration of boundary values and bit patterns of every kind through every input form",
   "pure functions: all values of bool, all 17-bit and single/double-bit integers, boundary lengths and texts"),
 "C04": (MC, "stateless exploration of all set/delete histories on the real KV against a sorted reference map",
   "bounded history depth over a prefix-related key alphabet"),
 "C05": (MC, "exhaustive enumeration of definitions over generated message shapes against the acceptance rule, each accepted one exercised on a store",
   "generated shapes up to nesting depth 4, every singleton/primary/secondary combination"),
 "C06": (MC, "stateless exploration of every pipeline of handlers and every failing position, run on the real runtime",
   "all pipelines up to 3 (4 thorough) handlers per phase with every failure position"),
 "C07": (MC, "exhaustive enumeration of module compositions built and started on the real builder, against the composition rule",
   "all compositions of a small module alphabet, with every conflict and ordering"),
 "C08": (MC, "explicit-state breadth-first search of role/binding states on the real runtime; every (user, verb, resource) decision compared with the model in every state",
   "reachable states of a small alphabet of roles, subjects and resources (quick: depth 4; thorough: fixpoint)"),
 "C09": (EX, "exhaustive enumeration of module compositions; genesis roles compared with what the descriptors grant",
   "all compositions of a small alphabet of declared transitions, objects and needs"),
 "C10": (MC, "stateless exploration of histories with every read operation and every check of a transaction interleaved, comparing the whole store before and after, on the real application",
   "sequences of reads and checks to depth 2 (3) in every state reached; admission handlers of this repository's modules"),
 "C11": (MC, "explicit-state exploration of delivered transactions on the real application; all stores compared with the all-or-nothing reference state",
   "every message sequence up to 3 (thorough 4) of an alphabet of succeeding and failing messages, every failing position; histories to depth 3 (5)"),
 "C12": (MC, "explicit-state breadth-first search over pre-signed transactions in every order with repetitions, to a fixpoint",
   "11 (15) pre-signed transactions of three accounts; all reachable states; chains of 300 (1200) sequences"),
 "C13": (EX, "exhaustive enumeration of alterations (every bit flip, truncation, signature and key replacement) of signed transactions against the real application",
   "five base transactions with 1 to 3 signers; cryptographic strength itself is assumed"),
 "C14": (MC, "explicit-state exploration of transfers on the real application against integer arithmetic per denomination",
   "every transfer over colliding accounts and amount lists; histories to depth 3 (5)"),
 "C15": (MC, "exhaustive enumeration of signer, forger, payer and message combinations on the real application; no balance of a non-signer falls",
   "all combinations over four accounts, messages up to length 2, every internal transition type"),
 "C16": (MC, "explicit-state exploration of fee, payer and message combinations on the real application against the reference balances",
   "all combinations of the fee alphabet; histories to depth 3 (6)"),
 "C17": (EX, "exhaustive enumeration of bounded malformed inputs on every outside surface of the real application, in several states, with everything stored read back and a valid transaction delivered afterwards",
   "byte strings up to 2 bytes, every bit flip, cut and doubling of three transactions, every part of every signed transition absent, doubled, retyped or extreme (thorough: pairs), nestings of up to 1 MB, query paths of up to 4 (5) segments, HTTP methods, headers and parameters of an alphabet"),
 "C18": (MC, "explicit-state breadth-first search over block begins, ends and module scripts on the real application, to a fixpoint; recorded state and updates compared with a model of the ABCI calls",
   "16 operations with two modules; all reachable states; every begin-block field alone and in pairs; walks over every 3 (4) operations in a row"),
 "C19": (MC, "stateless exploration of object histories with every ABCI query path asked after each step, and of all key texts, on the real query endpoint against the stored objects",
   "all kinds of primary key over boundary keys and odd texts; histories over a small key alphabet; well-formed and malformed paths"),
 "C20": (MC, "stateless exploration of object histories and of all key, field value and height texts on the real HTTP handlers against the stored objects",
   "all kinds of primary key over boundary keys and odd texts; every combination of stored index vectors; histories over a small key alphabet; single-selector lists of up to 100 matches"),
 "C21": (MC, "controlled-nondeterminism exploration: the node runs over a Go runtime whose map iteration starts, hash seeds, random numbers and clock are chosen by the explorer; every deviation is enumerated and compared with the baseline node, as are histories with local calls at every position",
   "one deviating statement or iteration at a time (thorough: pairs of statements), rotations the runtime can produce; block histories to length 2 (3); goroutine schedules are not controlled"),
 "C22": (MC, "explicit-state breadth-first search over account creations and first transfers on the real application",
   "histories to depth 3 (5) over 19 operations; chains of 300 (1200) accounts"),
 "C23": (EX, "exhaustive enumeration of present, absent, malformed and undeclared parts at every position of a transaction, on the real decoder",
   "up to 3 messages and signers of every kind; undeclared fields of 20 numbers and every wire type at every position of 30 nested messages; every truncation"),
 "C27": (FE, "every assignment of start and stop failures to every list of services, on the real service group and node; the API server stopped after every number of scheduling steps",
   "up to 4 (5) services over 3 modules; 12 (60) scheduling steps on one and on eight processors"),
 "C28": (EX, "exhaustive enumeration of all trees of user set operations against mathematical sets, on the real constructors",
   "up to 5 names, unions to depth 3, every query of up to 3 names"),
 "C29": (EX, "exhaustive enumeration of pairs of coin lists against integer arithmetic per denomination",
   "all lists up to length 3 over boundary amounts and denominations; malformed coins in every position"),
 "C30": (EX, "exhaustive enumeration of sets of objects, message shapes and reference graphs; document parsed and compared with the descriptors and with served answers; registration orders and map iteration starts under a controlled runtime",
   "sets of up to 2 (4) of the 19 repository objects and their complements; digraphs of 3 (4) messages; well-known google.protobuf messages may be described in place"),
 "C26": (MC, "exhaustive enumeration of declarations, whose generated code is compiled and run: every operation and option list against what reaches the runtime's client, and all operation histories through the generated client against the object store",
   "committed and regenerated code of the 7 repository packages; about 380 generated packages (names, keys, indexes, packages, role words to length 3 (4)); histories to depth 3 (4)"),
 "C31": (MC, "exhaustive enumeration of limits and values around every boundary on the real application; breadth-first histories of limit changes",
   "all combinations around each boundary; histories to depth 3 (5)"),
 "C32": (MC, "exhaustive enumeration of message sequences, admission handler arrangements and prior checks on the real application; handler traces compared",
   "all sequences up to length 3 over 11 messages in 4 module arrangements"),
 "C33": (EX, "exhaustive enumeration of stored objects, keys, answers and command lines against a node, on the real client library and command line",
   "UTF-8 words to length 2 (3); a real application behind a JSON-RPC endpoint, and an endpoint answering every malformed shape; cut connections may be retried"),
 "C34": (MC, "stateless exploration of the schedules of requests and block processing with bounded context switches, on the real application over a Go runtime with a controlled scheduler; answers compared with those in the states of the request's window, outcomes and states with the history alone",
   "16 requests, 8 histories, up to 3 context switches at the transaction, commit and iterator steps of the storage engine (quick: those next to a change of the stored state); a stated part of the schedules again under the race detector; lists are not claimed to be snapshots"),
 "C35": (EX, "exhaustive enumeration of state documents, module orders and failing modules against the calls the modules receive, on the real runtime",
   "three modules, 11 values each, all orders; documents with a key twice or consisting of null are left out"),
 "C36": (EX, "exhaustive enumeration of failing stages, kinds of errors, positions and wrappings against the class of the cause, on the real application",
   "12 stages, 19 kinds of errors, 3 positions; the repository's own refusals; wrappings to depth 4 (6)"),
 "C37": (MC, "exhaustive enumeration of signer sets, messages and following transactions, and breadth-first histories, on the real application; every account record compared around each delivery",
   "ordered sets of 3 (4) of 6 accounts without key, with their own and with another's; 8 message lists; histories to depth 3 (4); 33 (129) signers"),
 "C38": (MC, "exhaustive enumeration of scripts of module actions (creations, updates, deletions, deliveries with lists of impersonated users, from every handler, nested and repeated, refused at every step) on the real runtime and module clients; trace of authorizer requests and handler calls compared with the stated one",
   "lists of 3 users of 4 names; all pairs of actions; nesting 3; 66 users and modules; harness modules and recording authorizer"),
 "C39": (MC, "exhaustive enumeration of handler arrangements, transactions, failing steps and kinds of failures, and of histories of such calls, on the real ABCI application with recording modules and decoder; trace compared with the stated one",
   "up to 2 + 2 handlers of three modules, 3 messages; histories of 3 (4); 66 handlers, modules and messages"),
 "C24": (EX, "exhaustive enumeration of keys, messages and boundary signatures against the definition of ECDSA over secp256k1, on the real key and signature functions",
   "edge values of every scalar, every length up to 80 bytes, every bit flip and every changed prefix of several signatures and keys; the pure Go build (the one compiled here)"),
 "C25": (EX, "exhaustive enumeration of import graphs and message shapes against a direct walk",
   "all import graphs of up to 5 files (6 thorough), all registered files"),
}
try:
    from manifest_more import CLAIMS as MORE
    CLAIMS.update(MORE)
except ImportError:
    pass
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        lv, tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": tech, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: checks link the real packages and use exported APIs and reflection."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
