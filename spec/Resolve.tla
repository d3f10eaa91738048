------------------------------ MODULE Resolve ------------------------------
(* A file system that passes every call on to the one of its scheme.  A     *)
(* path belongs to a key (scheme, authority); each key has one instance,    *)
(* made by the factory that the scheme names, else by the default one.      *)
(*                                                                          *)
(* conf: map     scheme -> factory; a mapping of "file" holds for no scheme *)
(*       default factory                                                    *)
(*       works   factories that exist, are for file systems and succeed     *)
(* state: inst   key -> instance, call  thread -> the call it is in         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Factory(conf, scheme) ==
    LET eff == IF scheme = "" /\ "file" \in DOMAIN conf.map THEN "file" ELSE scheme IN
    IF eff \in DOMAIN conf.map THEN conf.map[eff] ELSE conf.default
KeyOf(u) == <<u.scheme, u.auth>>
Idle == [on |-> FALSE]
InCall(s, t) == t \in DOMAIN s.call /\ s.call[t].on

\* a call begins
Begin(s, t, m, u, args) == [s EXCEPT !.call = (t :> [on |-> TRUE, m |-> m, key |-> KeyOf(u), scheme |-> u.scheme, args |-> args,
                                                     made |-> 0, res |-> <<>>]) @@ @]
\* a factory is asked for an instance: by a call, for its key, only if there is none
MayMake(conf, s, t, id, key) == /\ InCall(s, t) /\ s.call[t].res = <<>>
                                /\ key = s.call[t].key /\ key \notin DOMAIN s.inst
                                /\ id = Factory(conf, s.call[t].scheme)
Make(s, t, key, n, ok) == IF ok THEN [s EXCEPT !.inst = (key :> n) @@ @] ELSE [s EXCEPT !.call[t].made = -1]
\* the instance of the key is called, once, with what the caller gave
MayPass(s, t, n, m, args) == /\ InCall(s, t) /\ s.call[t].res = <<>>
                             /\ s.call[t].key \in DOMAIN s.inst /\ s.inst[s.call[t].key] = n
                             /\ m = s.call[t].m /\ args = s.call[t].args
Pass(s, t, r) == [s EXCEPT !.call[t].res = <<r>>]
\* the caller gets what the instance said, or an error if there is no instance
MayReturn(conf, s, t, r) == /\ InCall(s, t)
                            /\ IF s.call[t].res # <<>> THEN r = s.call[t].res[1]
                               ELSE /\ ~r.ok
                                    /\ \/ s.call[t].made = -1
                                       \/ Factory(conf, s.call[t].scheme) \notin conf.works
Return(s, t) == [s EXCEPT !.call[t] = Idle]
=============================================================================
