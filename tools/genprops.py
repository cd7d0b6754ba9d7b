#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Edit here, run, commit both.
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

MEM = ["provider.go", "provider_option.go"]
BOLT = ["provider/bolt/provider.go", "provider/bolt/metadata.go", "provider/bolt/option.go"]
RED = ["provider/redis/provider.go", "provider/redis/metadata.go", "provider/redis/option.go"]

p("S01", "A manager accepts exactly the tokens signed with its key and method",
  "Looking a session up by token, or refreshing one, succeeds past verification only if the last dot-separated part of every token given decodes to the keyed MAC of everything before that last dot under the manager's own key and method, and both tokens carry the same user identity. Every token a manager issues is accepted by any manager configured with the same key and method and names the user it was created for, and is rejected by one with a different key (as an HMAC key) or method; no two issued tokens are equal. A token altered in any byte of its signed part, or whose signature is missing or altered, truncated or extended to decode to anything else, is rejected with an error and yields no session.",
  ["inputs", "configurations"], "every user id, key and token byte string within the bounds; all tamperings of the signature (bit masks, lengths)",
  "TestManager issues and reads back one well-formed token with one key; no test presents a tampered, truncated, re-keyed or mixed token.",
  ["manager.go", "token.go", "cryptoer/hmac.go"],
  [("token verification on lookup and refresh", "manager.go Get, Refresh"), ("MAC computation and comparison", "cryptoer/hmac.go Sign, Verify"), ("token layout", "token.go Split, Join, createToken")])
p("S02", "Tokens split into user, session and signature parts, and only tokens do",
  "A string counts as a token exactly when it contains at least two dots; it then splits into the part before the first dot, the part after the last dot, and whatever lies between, and joining the three parts gives the original string back. Strings with fewer dots are reported as invalid tokens by every operation that takes a token, and leave the store unchanged. A check over several strings fails exactly when one of them is not a token.",
  ["inputs"], "every byte string up to the bound, and every list of such strings",
  "The tests only split tokens the library built itself.",
  ["token.go", "provider.go"],
  [("splitting and joining", "token.go Split, Join, IsToken"), ("validation at the provider boundary", "provider.go Create..Refresh")])
p("S03", "The standalone token codec round-trips and rejects forgeries",
  "Decoding an encoded token under the same key and method returns exactly the user id and session id it was made from, for every user id without restriction and every session id that contains no dot. Decoding returns success for no string whose signature part is not the keyed MAC of the preceding text, whatever its shape, and never panics. Key material of the wrong type is refused by both directions.",
  ["inputs"], "every id, session id, key and candidate token within the bounds",
  "TestEncode round-trips decimal ids under one key and never decodes an altered or malformed token.",
  ["cryptoer/encode.go", "cryptoer/hmac.go"],
  [("codec", "cryptoer/encode.go Encode, Decode"), ("verification", "cryptoer/hmac.go Verify")])
p("S04", "Destroying a user removes that user's sessions and nobody else's",
  "After a user's sessions are destroyed through the manager, no token issued for that user, before or through refreshing, is usable any more, and every token of every other user stays exactly as usable as it was. This holds for arbitrary user id bytes, including empty ids, ids containing dots or pattern characters, and ids that are prefixes of one another.",
  ["inputs", "histories"], "all pairs of user ids up to the bound and all short histories of create, refresh and destroy over them",
  "Tests destroy one fixed user id; the space of id pairs and histories is not sampled at all.",
  ["manager.go", "provider.go", "token.go"],
  [("identity encoding", "manager.go Create, Destroy; coder.go encode"), ("per-user index", "provider.go Destroy, Create, Refresh, unsafePop")])
p("S05", "Every built-in signing method works wherever the library is imported",
  "Each built-in signing method signs and verifies in a program that imports nothing but this library: none reports its hash as unavailable. A method made over any other hash works if that hash is linked in, and otherwise returns an error and verifies nothing, without panicking. A method looked up by its registered name is the one registered last under that name, unknown names give no method, and lookups concurrent with registrations are safe.",
  ["programs", "inputs", "schedules"], "programs importing only the library; every method name, key and message within the bounds; interleavings of registration and lookup",
  "The test binary links packages that register the hashes as a side effect, so the suite passes although an ordinary program may not be able to use them.",
  ["cryptoer/hmac.go", "cryptoer/signing_method.go"],
  [("hash registration", "cryptoer/hmac.go init, Sign, Verify"), ("method registry", "cryptoer/signing_method.go")])
p("S06", "A created session holds exactly the given pairs, or nothing is created",
  "A session created through a manager holds exactly the given keys, each with the last value given for it, readable through the returned session, through a session looked up by its token and after refreshing. If a value cannot be encoded or the store refuses, creation returns the error, yields no session and, in the first case, creates nothing. A creation or refresh whose tokens cannot be signed returns that error and does not reach the store.",
  ["inputs", "fault_sequences"], "all lists of pairs up to the bound with arbitrary keys, values and encoding failures, per built-in codec and a custom one",
  "TestManager creates sessions with one or two fixed pairs and never fails.",
  ["manager.go", "coder.go", "session.go"],
  [("creation", "manager.go Create"), ("codecs", "coder.go GOBCoder, JSONCoder")])
p("S07", "Session ids are unique and never break a token",
  "No two session ids made by the library are equal, a session id contains no separator, and a token encoded over one decodes to exactly the user id and session id it was made from. The access and refresh tokens made for a user all differ from one another, are signed over the whole of what precedes their signature, count as tokens, and split into the user's identity and a session part without a separator when the identity has none. Uniqueness rests on the unique ids and random bytes drawn, not on when, where or for whom they are drawn.",
  ["inputs"], "every value of the unique ids drawn (any two differing), every user id and key within the bounds",
  "TestSessionID and TestEncode look at a handful of ids drawn in one process.",
  ["cryptoer/encode.go", "coder.go", "token.go"],
  [("session ids", "cryptoer/encode.go SessionID; coder.go newSessionID"), ("token creation", "token.go CreateToken, createToken")])
p("O02", "Managers follow the options given last, each independently",
  "A manager signs and verifies with the method and key given to it last, keeps sessions in the provider given last and encodes and decodes values with the coder given last, each of the four falling back to its documented default when not given, whatever the number and order of the options. Managers do not influence one another or the defaults: creating and using a manager with any options leaves what every other manager does, made before or after, unchanged.",
  ["configurations", "inputs", "histories"], "all sequences of options up to the bound with arbitrary keys and methods; two managers and a default one, made and used in any order",
  "Tests build one manager per option set and never two that could influence each other.",
  ["option.go", "manager.go"],
  [("options and defaults", "option.go WithMethod, WithKey, WithProvider, WithCoder, defaultOptions"), ("construction", "manager.go NewManager")])
p("O01", "Access tokens never outlive refresh tokens, whatever the option order",
  "For any sequence of duration options given to a provider, the access lifetime it uses is at most its refresh lifetime, the duration given last is used as given, and a duration not contradicted by a later one keeps its value. The same holds for every provider kind, and options given to one provider never change another or the defaults.",
  ["configurations"], "all sequences of up to three duration options with arbitrary durations, per provider kind",
  "Tests use one fixed order with one set of durations.",
  ["provider_option.go", "provider/bolt/option.go", "provider/redis/option.go"],
  [("duration options", "WithProviderAccess, WithProviderRefresh, WithAccess, WithRefresh")])

def prov(pref, name, files, extra):
    return files
# ---- memory
p("M01", "Memory store: a token's status follows its deadlines and history exactly",
  "A created token is usable until its access lifetime has passed, is then reported expired until its refresh lifetime has passed, and is then reported as not existing; a token never created, destroyed, refreshed away or evicted is reported as not existing. Every operation on the token reports the same status at the same instant, an operation that reports an error changes nothing, and the boundaries are exact to the nanosecond. Creating a session under an existing access token replaces it completely.",
  ["histories", "inputs"], "all operation histories up to the bound over several tokens with arbitrary lifetimes and arbitrary time steps between operations",
  "TestMemoryProvider runs one history with sleeps of seconds and one set of durations; boundaries and other histories are never reached.",
  MEM, [("status decision", "provider.go Check, Get, Keys, Put, Delete, Refresh, unsafeGet"), ("deadlines", "provider.go tokenValue")])
p("M02", "Memory store: data reads back exactly and belongs to the store",
  "A read of a key returns precisely the bytes last written for that key under that session and whether the key exists; keys list exactly the written and not deleted keys; removing keys removes exactly those. Bytes handed in or handed out are never shared with the store: changing them afterwards changes neither what the store returns nor another caller's result. Sessions never see each other's data.",
  ["histories", "inputs"], "all histories of create, put, delete, get and keys up to the bound with arbitrary keys and values, and mutation of every handed-over buffer",
  "Tests write fixed values once and never mutate buffers or overlap keys.",
  MEM, [("copying in and out", "provider.go SetCopy, CopyKeys"), ("key operations", "provider.go Put, Get, Keys, Delete")])
p("M03", "Memory store: refreshing rotates tokens once and keeps the data",
  "Refreshing with the current access and refresh tokens makes the new access token usable with fresh lifetimes and all of the session's data, and makes the old access token not exist; the old refresh token can never be used again. A refresh with a mismatching refresh token, tokens of different users, a destroyed session or an elapsed refresh lifetime fails with the corresponding error and changes nothing. Whatever token values are given, including a new access token that is already live, later operations stay consistent.",
  ["histories", "inputs"], "all histories with up to two refreshes over arbitrary choices of old and new tokens and time steps",
  "Tests refresh once with fresh distinct tokens.",
  MEM, [("rotation", "provider.go Refresh, unsafePop, checkID; manager.go Refresh")])
p("M04", "Memory store: destruction is complete, precise and permanent",
  "After destroying a token it does not exist and no other token changes; after destroying a user every token of that user does not exist, including refreshed ones, and no other user's token changes. Destroying what does not exist succeeds and changes nothing, and a later session of the same user is not affected by earlier destructions.",
  ["histories"], "all histories of create, refresh, destroy-by-token, destroy-by-user, expiry and cleanup up to the bound over several users",
  "Tests destroy once in one fixed history.",
  MEM, [("per-user index maintenance", "provider.go Destroy, DestroyByToken, unsafePop, unsafeClear, Create, Refresh")])
p("M05", "Memory store: capacity is a hard limit and the oldest session goes first",
  "With a positive capacity the number of sessions held never exceeds it; a creation at capacity evicts exactly the session created or refreshed longest ago and nothing else, and re-creating or refreshing a held session evicts nothing. Without a positive capacity nothing is ever evicted.",
  ["histories", "configurations"], "all histories of create, refresh and destroy up to the bound for every capacity in range",
  "Tests fill one provider of one size in one order.",
  MEM, [("eviction", "provider.go Create, unsafePop; lru list")])
p("M06", "Memory store: background cleanup is invisible and reclaims everything",
  "Background checking and periodic cleanup never remove or change a session whose refresh lifetime has not passed, whatever their batch size and period and however they interleave with operations. Once a session's refresh lifetime has passed and an operation has met it, or a cleanup period has elapsed, nothing about it is held any more, nor about a user without sessions.",
  ["histories", "schedules", "configurations"], "all histories with arbitrary time steps, batch sizes and cleanup periods within the bounds, background activity interleaved",
  "Tests never look at what is held after cleanup and use one configuration.",
  MEM, [("cleanup", "provider.go clear, unsafeClear, check, unsafeCheck"), ("queue", "provider.go read, tryRead")])
p("M07", "Memory store: closing is clean, final and never blocks",
  "After closing, every operation fails with the closed error without panicking or blocking, a second close reports the closed error, and background activity ends. Closing concurrently with any operation never panics, deadlocks or leaves an operation blocked.",
  ["histories", "schedules"], "every operation after close, and every interleaving within the preemption bound of close with one operation",
  "Tests close once at the end and never use the provider afterwards or concurrently.",
  MEM, [("close protocol", "provider.go Close, done checks, closed channel")])
p("M08", "Memory store: concurrent operations are atomic, race-free and deadlock-free",
  "Operations issued concurrently give results that some one-after-the-other order of the same operations would give, without data races, panics or deadlocks. In particular two concurrent refreshes with the same token never both succeed, and a destroyed session never comes back.",
  ["schedules"], "all interleavings within the preemption bound of two or three concurrent operations from the listed pairs, with background goroutines",
  "Tests are single-threaded.",
  MEM, [("locking", "provider.go p.m Lock/RLock in every operation")])
# ---- session object
p("X01", "A session object never shows stale or invented values",
  "A value read through a session object is the one the store holds, or held at the object's own last read or write of that key: after the object itself writes or deletes a key, its reads reflect that. A key reported missing is missing in the store, or was at the object's own last access of it; errors from the store or the codec are returned and never cached as values, and a failed write does not alter what the object reads.",
  ["histories", "inputs", "fault_sequences"], "all histories of put, prepare, get and delete through one object up to the bound, with store and codec failures at any call",
  "TestSession performs one linear sequence with a store that never fails and never deletes.",
  ["session.go"], [("read cache", "session.go Get, Put, Prepare, Delete")])
p("X02", "Reading a session value never panics and never shares memory",
  "Reading a key into any pointer either fills it exactly as decoding the stored bytes would or returns an error; no combination of previously read types makes it panic. A value obtained from a read, and a value passed to a write, share no memory with later reads.",
  ["inputs", "histories"], "all pairs of destination types from the listed set, with mutation of every obtained value",
  "TestSession reads each key with one type and mutates nothing.",
  ["session.go"], [("typed reads", "session.go Get")])
# ---- bolt
p("X03", "A session object acts on exactly its own session",
  "A session object can be made over exactly the strings that are tokens and names that token and its user. Checking, destroying, writing, reading, preparing and listing through it reach the store for that very token with the caller's context and the keys and encoded pairs given, nothing else is asked of the store, and the store's results and errors come back unchanged; other sessions of the same user and of others are not touched. Deleting acts on exactly the token given. Values the session object itself read or wrote may answer later reads of those keys, but nothing it remembers stands in for the store in any other operation. Where there is nothing to do, or the destination is not a pointer to a value, nothing is asked of the store and the documented error is returned.",
  ["inputs", "fault_sequences", "histories"], "every token up to the bound, every operation with arbitrary keys and pairs, a store that fails or not; short histories next to other sessions",
  "TestSession drives one session in an otherwise empty store and never looks at what the store is asked.",
  ["session.go", "manager.go"],
  [("delegation", "session.go Check, Destroy, Put, Keys, Prepare, Get, Delete"), ("construction", "session.go NewSession, newSession")])
p("P01", "Stores are independent of one another",
  "Two stores of one kind never see each other's sessions, even when the same tokens are used in both: two stores in memory, two bolt stores with different buckets of one database, and two redis stores on one server, each with its own client, whose key prefixes do not extend one another. No operation on one, including clearing and closing it, changes what the other reports or holds, nor anything else the database contains, and a database handed to a store by its owner stays open when the store is closed.",
  ["histories", "inputs", "configurations"], "all histories up to the bound over both stores with the same tokens, every pair of bucket names or key prefixes up to the bound, next to foreign contents",
  "Every test uses one store with the default names.",
  ["provider.go", "provider/bolt/provider.go", "provider/bolt/option.go", "provider/redis/provider.go", "provider/redis/option.go"],
  [("name spaces", "provider/bolt/provider.go New, store, Clear; provider/redis/provider.go Destroy, key prefixes"), ("ownership of the database", "provider/bolt/provider.go New, Close")])
p("E01", "A session lives one life, whichever part of the library acts on it",
  "From creation through a manager on, every way of acting on a session agrees about it: the manager, the session object the creator got, objects made later from the token, with any of the stores behind them. A token is genuine for as long as anyone asks; its status follows the deadlines and what was done to it (alive, then expired, then gone; gone after being destroyed by token, by object or by user, or rotated); a refresh succeeds exactly with the two tokens of one session that is not dead, even when access has expired, and carries the data over to the new tokens and to the user; reads give exactly what was last written through any object, writes and removals succeed exactly while the token is alive, an object shows its own writes, and sessions of other users and other sessions of the same user are never affected.",
  ["histories", "clock_values", "inputs"], "all histories of operations through managers and objects up to the bound, over each of the three stores, at every instant and with arbitrary lifetimes",
  "TestManager and TestSession follow one session of one user along one path, in memory, and never past a deadline.",
  ["manager.go", "session.go", "token.go", "provider.go", "provider/bolt/provider.go", "provider/redis/provider.go"],
  [("manager", "manager.go Create, Destroy, DestroyByToken, Get, Refresh"), ("session objects", "session.go Session methods"), ("stores", "provider.go MemoryProvider; provider/bolt/provider.go Provider; provider/redis/provider.go Provider")])
p("E02", "Managers, signing methods and coders can be shared by goroutines",
  "Operations that goroutines perform at the same time through one manager have the effect of performing them in some order, without data races: tokens issued are distinct and genuine, each session belongs to its own user and holds its own data. Managers can be made at the same time and keep their own keys and stores. Goroutines signing and verifying with one method get exactly the signatures of their own texts and keys; values put through one coder by different goroutines, or one after the other, come out unchanged, and bytes and values it handed out stay the caller's own.",
  ["interleavings", "inputs"], "every interleaving of two goroutines with the stated number of preemptions, every pair of operations, arbitrary values",
  "No test starts a second goroutine on a manager, a signing method or a coder, and the suite is not run under the race detector.",
  ["manager.go", "session.go", "coder.go", "cryptoer/hmac.go", "cryptoer/signing_method.go", "provider.go"],
  [("shared state", "manager.go LocalManager, NewManager; coder.go GOBCoder, JSONCoder, XMLCoder; cryptoer/hmac.go Sign, Verify"), ("atomicity", "provider.go MemoryProvider")])
p("C01", "A context that ends stops an operation whole or not at all",
  "Whatever the instant at which the context of an operation ends - before the operation, or at any point while it runs - the operation either takes effect completely and reports what it would have reported, or reports the end of the context, gives no results and changes nothing; only a redis command that is on its way when the context ends may take effect although the end is reported, and then as a whole (destroying a user: session by session). The store, the manager and the session objects work as before afterwards. Managers and session objects hand the store the caller's own context.",
  ["fault_sequences", "histories", "inputs"], "every operation of the three stores, of managers and of session objects, every point at which the context is looked at or a command sent, short histories, arbitrary values and session ages",
  "Every test passes context.Background().",
  ["provider.go", "manager.go", "session.go", "provider/bolt/provider.go", "provider/redis/provider.go"],
  [("operations taking a context", "provider.go MemoryProvider; provider/bolt/provider.go Provider; provider/redis/provider.go Provider, update"), ("handing it on", "manager.go LocalManager; session.go Session")])
p("B01", "Bolt store: a token's status follows its deadlines and history exactly",
  "A created token is usable until its access lifetime has passed, is then reported expired until its refresh lifetime has passed, and is then reported as not existing; a token never created, destroyed, refreshed away or evicted is reported as not existing. Every operation on the token reports the same status at the same instant and an operation that reports an error changes no usable session. Creating a session under an existing access token replaces it completely.",
  ["histories", "inputs"], "all operation histories up to the bound over several tokens with arbitrary lifetimes and time steps",
  "The bolt tests run fixed histories with sleeps of seconds.",
  BOLT, [("status decision", "provider/bolt/provider.go unsafeCheck, Put, Delete, Refresh"), ("deadlines", "provider/bolt/metadata.go")])
p("B02", "Bolt store: data reads back exactly and stays valid after the call",
  "A read of a key returns precisely the bytes last written for that key under that session and whether the key exists; keys list exactly the written and not deleted keys; removing keys removes exactly those and sessions never see each other's data. Returned bytes remain valid and unchanged whatever happens to the store afterwards, and changing them does not affect the store.",
  ["histories", "inputs"], "all histories of create, put, delete, get and keys up to the bound with arbitrary keys and values, and use of every returned buffer afterwards",
  "Tests look at returned bytes immediately, while the pages happen to be intact.",
  BOLT, [("reads inside a transaction", "provider/bolt/metadata.go getData, getKeys, putData, deleteKeys")])
p("B03", "Bolt store: refreshing rotates tokens once and keeps the data",
  "Refreshing with the current access and refresh tokens makes the new access token usable with fresh lifetimes and all of the session's data, and makes the old access token not exist; the old refresh token can never be used again. A refresh with a mismatching refresh token, tokens of different users, a destroyed session or an elapsed refresh lifetime fails with the corresponding error and changes nothing. Whatever token values are given, including a new access token that is already live, later operations stay consistent.",
  ["histories", "inputs"], "all histories with up to two refreshes over arbitrary choices of old and new tokens and time steps",
  "TestProviderRefresh refreshes once with fresh distinct tokens.",
  BOLT, [("rotation", "provider/bolt/provider.go Refresh, delete; metadata.go getPairs, appendIDS")])
p("B04", "Bolt store: destruction is complete, precise and permanent",
  "After destroying a token it does not exist and no other token changes; after destroying a user every token of that user does not exist, including refreshed ones, and no other user's token changes. Destroying what does not exist succeeds and changes nothing. Clearing the store removes every session, works on a store that never held one, and leaves it usable.",
  ["histories"], "all histories of create, refresh, destroy, clear and cleanup up to the bound over several users",
  "Tests destroy and clear once in fixed histories.",
  BOLT, [("per-user index", "provider/bolt/metadata.go appendIDS, deleteIDS; provider.go unsafeDestroy, deleteTokens, Clear")])
p("B05", "Bolt store: capacity is a hard limit and the oldest session goes first",
  "With a positive capacity the number of sessions held never exceeds it; a creation at capacity evicts exactly the session created or refreshed longest ago, and re-creating or refreshing a held session evicts nothing. Opening a store that holds more sessions than a newly lowered capacity brings it back within the capacity at the next creation.",
  ["histories", "configurations"], "all histories of create, refresh and destroy up to the bound for every capacity in range, with reopening",
  "Tests fill one provider of one size in one order.",
  BOLT, [("eviction", "provider/bolt/provider.go unsafePop, Create; metadata.go count, increment, decrement")])
p("B06", "Bolt store: background cleanup is invisible and reclaims everything",
  "Background checking and periodic cleanup never remove or change a session whose refresh lifetime has not passed, whatever their batch size and period. Once an operation has noticed that a session's refresh lifetime has passed, or a cleanup period has elapsed after it, nothing about that session is stored any more. After the provider is closed its background activity no longer changes a database shared with others.",
  ["histories", "schedules", "configurations"], "all histories with arbitrary time steps, batch sizes and cleanup periods within the bounds",
  "Tests never inspect the stored content after background work.",
  BOLT, [("cleanup", "provider/bolt/provider.go clear, doClear, check, doCheck")])
p("B07", "Bolt store: sessions survive reopening, and updates are all or nothing",
  "Sessions, their data, deadlines, user index and eviction order are the same after closing the provider and opening a new one on the same database. If the database fails or the process stops at any point of an operation, the stored state is the one before or the one after that operation, never a mixture, and an operation that reports success has taken effect durably.",
  ["crash_points", "histories", "fault_sequences"], "all histories up to the bound with a commit failure or a stop at every write transaction, followed by reopening",
  "No test stops or fails an operation midway.",
  BOLT, [("single write transaction per operation", "provider/bolt/provider.go db.Update in Create, Put, Refresh, Destroy, Clear"), ("error propagation", "provider/bolt/provider.go result handling")])
p("B08", "Bolt store: closing is final, and concurrent operations are atomic",
  "After closing, every operation including clearing fails with the closed error without panicking or blocking, and a second close reports the closed error. Operations issued concurrently, with each other or with closing, give results that some one-after-the-other order would give, without data races, panics or deadlocks; two concurrent refreshes with the same token never both succeed.",
  ["schedules", "histories"], "every operation after close; all interleavings within the preemption bound of the listed operation pairs",
  "Tests are single-threaded and never use a closed provider.",
  BOLT, [("close protocol and locking", "provider/bolt/provider.go Close, Clear, p.m")])
# ---- redis
p("R01", "Redis store: a token's status follows its deadlines and history exactly",
  "A created token is usable until its access lifetime has passed, is then reported expired until its refresh lifetime has passed, and is then reported as not existing; a token never created, destroyed or refreshed away is reported as not existing. Every operation on the token, including listing and deleting keys, reports the same status at the same instant. Creating a session under an existing access token replaces it completely.",
  ["histories", "inputs"], "all operation histories up to the bound over several tokens with arbitrary lifetimes and time steps, against a model of the server",
  "No test of the redis provider runs without a server, and none covers expiry.",
  RED, [("status decision", "provider/redis/provider.go Check, Put, Get, Keys, Delete, Refresh"), ("server-side expiry", "provider/redis/provider.go Expire, ExpireAt")])
p("R02", "Redis store: data reads back exactly and bookkeeping stays hidden",
  "A read of a key returns precisely the bytes last written for that key under that session and whether the key exists; keys list exactly the written and not deleted keys; removing keys removes exactly those. The provider's own bookkeeping entry can be neither read, listed, overwritten nor removed through the session operations. Sessions never see each other's data.",
  ["histories", "inputs"], "all histories of create, put, delete, get and keys up to the bound with arbitrary keys, including the reserved one, and values",
  "No test of the redis provider runs without a server.",
  RED, [("field handling", "provider/redis/provider.go checkKey, Put, Get, Keys, Delete")])
p("R03", "Redis store: refreshing rotates tokens once and keeps the data",
  "Refreshing with the current access and refresh tokens makes the new access token usable with fresh lifetimes and all of the session's data, and makes the old access token not exist; the old refresh token can never be used again. A refresh with a mismatching refresh token, tokens of different users, a destroyed session or an elapsed refresh lifetime fails with an error and changes nothing.",
  ["histories", "inputs"], "all histories with up to two refreshes over arbitrary choices of tokens and time steps",
  "No test of the redis provider runs without a server.",
  RED, [("rotation", "provider/redis/provider.go Refresh")])
p("R04", "Redis store: destruction is complete and precise for any identity",
  "Destroying a user removes every session of that user and nothing else in the database, whatever characters the identity and the configured key prefix contain; destroying a token removes exactly that session. Destroying what does not exist succeeds.",
  ["inputs", "histories", "configurations"], "all identities and key prefixes up to the bound, including pattern characters, over databases with other users' sessions and foreign keys",
  "No test of the redis provider runs without a server.",
  RED, [("pattern lookup", "provider/redis/provider.go Destroy, keyName")])
p("R05", "Redis store: every stored session expires on the server by its deadline",
  "Every key the provider leaves in the database carries a server-side expiry no earlier than the session's refresh deadline allows and late by at most the server's time granularity, after creation, writing and refreshing alike; no operation leaves a key that never expires.",
  ["histories", "inputs"], "all histories up to the bound with arbitrary lifetimes and time steps",
  "No test of the redis provider runs without a server.",
  RED, [("expiry commands", "provider/redis/provider.go Create, Put, Refresh")])
p("R06", "Redis store: concurrent operations never revive or duplicate a session",
  "Whatever way the server commands of concurrent operations interleave, a session that was destroyed does not come back, a token that was refreshed away does not come back, and two refreshes with the same token do not both succeed; a refresh never loses data written before it began.",
  ["schedules"], "all interleavings of the server commands of the listed pairs of operations",
  "No test of the redis provider runs without a server, and none is concurrent.",
  RED, [("multi-command updates", "provider/redis/provider.go Put, Refresh, pushDelete, delete")])
p("R07", "Redis store: closing is clean and final",
  "After closing, every operation fails with the closed error without panicking or blocking, a second close reports the closed error, and the background deleter ends.",
  ["histories", "schedules"], "every operation after close, and close interleaved with one operation",
  "No test of the redis provider runs without a server.",
  RED, [("close protocol", "provider/redis/provider.go Close, toError")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
