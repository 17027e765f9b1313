#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json out of one table (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, W, L = "x/restaking/keeper/", "x/rewards/keeper/", "x/liquidvesting/keeper/"
P = []

def prop(id, title, statement, text, why, files, mech, observe, over=("histories",), state=None, claim=None, note=None, na=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech,
                  observe=observe, over=list(over), state=state, note=note, na=na, tech=tech))

DEF_NOTE = ("Exhaustive within the bounds reported in the evidence: every operation sequence over the stated alphabet up to the completed depth is "
            "executed on the real application (real keepers, message router, begin and end blockers) in lock-step with a reference model; every transition is a "
            "conformance check. Says nothing about amounts, participants or depths outside the alphabet and bound. Trusts the in-memory multistore, the harness model "
            "and the Cosmos SDK, IBC and oracle modules as they are.")

prop("C01", "Restaked funds are fully held in custody",
     "At every moment, the account of every restaking target (pool, operator, service) holds at least the sum of what its delegators have delegated to it plus what they are unbonding from it, per denom, and no delegation, undelegation, administrative operation or block changes the difference. No operation by anybody moves these funds anywhere but to their owners.",
     "every interleaving of delegations, undelegations, administration of the targets and block progress by several users over all three kinds of target",
     "Tests check single delegations and undelegations from hand-written states; custody must hold after every sequence of operations.",
     [R+"alias_functions.go", R+"unbond.go", R+"pool_restaking.go", R+"operator_restaking.go", R+"service_restaking.go"],
     [("escrow transfer on delegation and undelegation", R+"alias_functions.go"), ("completion of unbonding delegations", R+"unbond.go")],
     ["bank balances of target accounts", "delegation and unbonding queries"],
     state=[("delegations and unbonding delegations", "what each user is owed", "x/restaking/types/keys.go")])
prop("C02", "Delegations, target totals and balances are exact",
     "After any history, each user's delegation to each target equals what he delegated minus what he undelegated, and every target's recorded tokens and shares equal the sum over its delegators; nothing else (renaming, ownership or parameter changes, status changes) alters them. Every delegation moves exactly its amount out of the user's balance.",
     "every sequence of delegations, undelegations and administrative operations by several users over several denoms",
     "Tests assert totals after one operation from a fixed store; the totals must be preserved by every operation in every reachable state.",
     [R+"alias_functions.go", R+"pool_restaking.go", R+"operator_restaking.go", R+"service_restaking.go", "x/operators/types/models.go", "x/services/types/models.go", "x/operators/keeper/msg_server.go", "x/services/keeper/msg_server.go"],
     [("share issuance and removal", R+"alias_functions.go"), ("target total updates", "x/operators/types/models.go")],
     ["delegation queries", "target queries", "bank balances"])
prop("C03", "Every undelegation is paid once, in full, at its due time",
     "Each accepted undelegation is paid to its owner exactly once, in exactly its amount, in the first block at or after the completion time announced in its reply, and that time is the acceptance time plus the unbonding period in force. Neither later operations, parameter changes nor other users' undelegations delay, merge, lose or duplicate a payment, and processing them never fails.",
     "every schedule of undelegations across targets, denoms and users, of unbonding period changes and of block times",
     "Tests complete one or two entries; losses and duplicates need several entries with equal or crossing completion times.",
     [R+"unbond.go", R+"end_blocker.go", "x/restaking/types/models.go", R+"alias_functions.go"],
     [("unbonding queue by completion time", R+"alias_functions.go"), ("completion of mature entries in the end blocker", R+"end_blocker.go")],
     ["undelegation replies", "bank balances after each block", "unbonding delegation queries"], over=("histories", "schedules"))
prop("C04", "Only admissible delegations and undelegations are accepted",
     "A delegation is accepted exactly when its target exists and is active, its coins are positive, owned by the delegator and of denoms restakable globally and by the target; an undelegation is accepted exactly when it is positive and covered by the delegation. A rejected operation changes nothing.",
     "every delegation and undelegation over small amounts, denoms and targets in every reachable configuration of parameters and target status",
     "Tests try listed cases; admissibility depends on the combination of global parameters, service parameters, status and balances.",
     [R+"msg_server.go", R+"pool_restaking.go", R+"operator_restaking.go", R+"service_restaking.go", R+"params.go"],
     [("admission checks", R+"operator_restaking.go"), ("unbond amount validation", R+"alias_functions.go")],
     ["transaction results", "stores before and after"], over=("inputs", "histories"))
prop("C05", "Restaked funds can always be withdrawn by their owner",
     "In every reachable state, each delegator can undelegate everything delegated to any target, whatever the status of the target, the parameters and the trust and reward state, and receives it in full after the unbonding period. No history of operations by others can lock restaked funds or stop the chain while paying them back.",
     "every reachable state of the restaking, operators, services, pools and rewards modules within the bounds, with a full withdrawal attempted from each",
     "A stuck state needs an unlucky history (deleted target, trust changed before a service is created or secured...); tests do not attempt withdrawals from such states.",
     [R+"unbond.go", R+"alias_functions.go", W+"hooks.go", W+"restaking_hooks.go", W+"delegation.go", W+"pool_service_shares.go"],
     [("undelegation path including rewards hooks", R+"unbond.go"), ("pool-service share tracking", W+"pool_service_shares.go")],
     ["undelegation results", "bank balances after the unbonding period"])
prop("C06", "Joined services, allow-lists and securing pools are exactly as set",
     "The services joined by an operator, the operators allowed by a service and the pools securing a service are exactly those resulting from the accepted requests of their admins, each with its documented precondition. Deleting an operator or a service removes it from all these relations, and an allow-list emptied that way deactivates the service instead of opening it to everybody.",
     "every sequence of relation changes, deletions and status changes over two operators, two services and two pools",
     "Tests add or remove single entries; leftovers and re-openings appear only after deletions interleaved with relation changes.",
     [R+"operators_hooks.go", R+"services_hooks.go", R+"alias_functions.go", R+"msg_server.go"],
     [("clean-up hooks on deletion", R+"operators_hooks.go"), ("relation collections", R+"alias_functions.go")],
     ["relation queries", "transaction results"])
prop("C07", "Queries answer exactly what the state holds, page by page",
     "Every query of the restaking, operators, services and pools modules returns exactly the matching objects of the current state, independent of the page size, with every object on exactly one page. Queries by user, by target and by pair always agree with each other.",
     "every reachable state within the bounds, every query argument in the participants' domain, page sizes one, two and unlimited",
     "Tests query hand-written stores with one or two entries; index divergence and pagination faults need several targets and users.",
     [R+"grpc_query.go", "x/operators/keeper/grpc_query.go", "x/services/keeper/grpc_query.go", "x/pools/keeper/grpc_query.go"],
     [("by-target index", "x/restaking/types/keys.go"), ("query servers", R+"grpc_query.go")],
     ["gRPC query responses"], over=("histories", "inputs"))
prop("C09", "Operators change status, terms and identity only as specified",
     "An operator is registered active with a fresh identifier and address, becomes inactivating and then inactive exactly when its deactivation period ends, can be reactivated or deleted only when inactive, and its description, commission and admin change only through the corresponding accepted request. The end-of-block processing never fails.",
     "every sequence of registrations, updates, (de)activations, deletions, parameter changes and blocks over two operators",
     "Tests exercise each message once; queue entries surviving reactivation, deletion or parameter changes need longer histories.",
     ["x/operators/keeper/msg_server.go", "x/operators/keeper/alias_functions.go", "x/operators/keeper/operators.go", "x/operators/types/models.go"],
     [("inactivating queue", "x/operators/keeper/alias_functions.go"), ("status transitions", "x/operators/keeper/msg_server.go")],
     ["operator queries", "transaction results", "end blocker"])
prop("C10", "Operators and services obey their current admin only",
     "Every request that changes an operator or a service, its parameters, its relations or its ownership is accepted from its current admin only; after a transfer the new admin holds these rights and the old one holds none.",
     "every sequence of ownership transfers interleaved with requests by the admin, the former admin, a stranger and governance",
     "Tests check a stranger once per message; rights must follow ownership through any history.",
     ["x/operators/keeper/msg_server.go", "x/services/keeper/msg_server.go", R+"msg_server.go"],
     [("admin checks", "x/operators/keeper/msg_server.go"), ("admin checks of relations", R+"msg_server.go")],
     ["transaction results"])
prop("C11", "Services change status, terms and accreditation only as specified",
     "A service is created inactive with a fresh identifier and address, is activated and deactivated by its admin, deleted only when not active, and accredited or discredited by governance only; its description, allowed denoms and admin change only through the corresponding accepted request. A service whose last allowed operator is deleted is deactivated.",
     "every sequence of creations, updates, status changes, accreditations, deletions and delegations over up to three services",
     "Tests exercise each message once from a fixed store.",
     ["x/services/keeper/msg_server.go", "x/services/keeper/alias_functions.go", "x/services/types/models.go", R+"operators_hooks.go"],
     [("status transitions", "x/services/keeper/msg_server.go"), ("accreditation", "x/services/keeper/alias_functions.go")],
     ["service queries", "transaction results"])
prop("C12", "Registration fees are charged exactly, once, to the community pool",
     "Registering an operator or a service succeeds exactly when the offered fee covers one of the required fee coins (or no fee is required) and the payer owns it; exactly the offered fee is moved to the community pool, once. A rejected registration charges nothing.",
     "every fee offer of a small domain under every reachable fee parameter setting and payer balance",
     "Tests cover one fee configuration; coverage and charge depend on the combination of required, offered and owned coins.",
     ["x/operators/keeper/msg_server.go", "x/services/keeper/msg_server.go"],
     [("fee check and charge", "x/operators/keeper/msg_server.go")],
     ["transaction results", "bank balances"], over=("inputs", "histories"))
prop("C13", "Each denom has exactly one pool, and pools hold only their denom",
     "The first accepted pool delegation of a denom creates its pool with a fresh identifier and address; afterwards the denom keeps exactly that pool, and a pool's tokens and account never contain any other denom.",
     "every sequence of pool delegations and undelegations of three denoms by two users",
     "Tests create one pool; uniqueness and identifier freshness are statements over histories.",
     ["x/pools/keeper/keeper.go", "x/pools/keeper/alias_functions.go", R+"pool_restaking.go"],
     [("create or get a pool by denom", "x/pools/keeper/alias_functions.go")],
     ["pool queries", "bank balances"])

EXTRA = os.path.join(HERE, "tools", "props_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        if p["state"]:
            d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), (p["id"], x)
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": "explicit-state model checking of the real application in lock-step with a reference model (bounded exhaustive exploration of operation sequences)" if not p.get("tech") else p["tech"],
                   "level": "model_checking", "level_note": p["note"] or DEF_NOTE})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks share one checker (mc/), built against /repo's working tree through a go build overlay by build.sh; no hooks in /repo."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "n/a")
