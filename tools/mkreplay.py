#!/usr/bin/env python3
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {"C30": ["plugin:TestPlugin"]}
for i in "C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C22 C28 C30 C33 C34".split():
    R.setdefault(i, []).append("tree:TestTree")
for i in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C22 C28 C33 C34".split():
    R.setdefault(i, []).append("rpc:TestRPC")
for i in "C18 C20 C21 C25".split():
    R.setdefault(i, []).append("store:TestStore")
R.setdefault("C25", []).append("store:TestIndex")
R.setdefault("C26", []).append("store:TestContain")
R.setdefault("C31", []).append("cache:TestCache@pkg/netauth/cache/memory")
R.setdefault("C37", []).append("keys:TestKeys@internal/token/jwt")
R.setdefault("C36", []).append("cachefs:TestFileCache@pkg/netauth/cache/fs")
for t in ("resolver:TestResolverRace@internal/mresolver!race", "memkv:TestMemRace@internal/db/memory!race", "cache:TestCacheRace@pkg/netauth/cache/memory!race"):
    R.setdefault("C24", []).append(t)
R.setdefault("C27", []).append("health:TestHealth@internal/health")
R.setdefault("C06", []).append("jwt:TestToken@internal/token/jwt")
for i in ("C22", "C23"):
    R.setdefault(i, []).append("resolver:TestResolver@internal/mresolver")
R.setdefault("C32", []).append("client:TestClient@pkg/netauth")
R.setdefault("C29", []).append("copy:TestCopy@cmd/nsutil")
R.setdefault("C35", []).append("server:TestServerTLS@cmd/netauthd")
R.setdefault("C35", []).append("client:TestClientTLS@pkg/netauth")
json.dump({k: " ".join(v) for k, v in sorted(R.items())}, open(os.path.join(root, "replay/replay.json"), "w"), indent=1)
open(os.path.join(root, "replay/replay.json"), "a").write("\n")
