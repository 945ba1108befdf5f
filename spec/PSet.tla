-------------------------------- MODULE PSet --------------------------------
(* Particle sets.  Each has a kind, a scalar of its own (the ID of a         *)
(* trajectory, the time of a snapshot, none for a plain set), and properties *)
(* by name: shape of one value, type, and a value for each particle.         *)
EXTENDS Util

VARIABLE objs        \* [name of object -> [kind, tag, n, props]]
pvars == <<objs>>

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Prop(o, name) == objs[o].props[name]

Create(o, kind, tag, n, props) ==
    objs' = Upd(objs, o, [kind |-> kind, tag |-> tag, n |-> n, props |-> props])
\* New property, or a new one in place of that of the same name. Replacing a
\* property whole is the same, for one that is there.
SetProp(o, name, p) == objs' = [objs EXCEPT ![o].props = Upd(@, name, p)]
\* The particles at indices ixs (all different) get the values vals.
SetSel(o, name, ixs, vals) ==
    objs' = [objs EXCEPT ![o].props[name].vals =
        [i \in DOMAIN @ |-> IF i \in Range(ixs)
                            THEN vals[CHOOSE k \in DOMAIN ixs : ixs[k] = i] ELSE @[i]]]

Read(o, name, ixs) == [k \in DOMAIN ixs |-> Prop(o, name).vals[ixs[k]]]
Whole(o, name) == Prop(o, name).vals
Has(o, name) == name \in DOMAIN objs[o].props
Schema(o) == { <<name, Prop(o, name).shape>> : name \in DOMAIN objs[o].props }
\* Flat values only have an extended description.
ExtSchema(o) == { <<name, Prop(o, name).type,
                    IF Prop(o, name).shape = <<>> THEN 1 ELSE Prop(o, name).shape[1]>>
                  : name \in { m \in DOMAIN objs[o].props : Len(Prop(o, m).shape) < 2 } }
Table(o, ixs) == [k \in DOMAIN ixs |->
    [x |-> Prop(o, "pos").vals[ixs[k]], v |-> Prop(o, "velocity").vals[ixs[k]],
     t |-> Prop(o, "time").vals[ixs[k]], id |-> objs[o].tag]]

(* ------------------------------------------------------------- properties *)
Consistent == \A o \in DOMAIN objs : \A m \in DOMAIN objs[o].props :
    /\ Len(Prop(o, m).vals) = objs[o].n
    /\ \E d \in Schema(o) : d[1] = m
DescribedOnce == \A o \in DOMAIN objs :
    Cardinality(Schema(o)) = Cardinality(DOMAIN objs[o].props)
\* One step changes one property of one set.
OneAtATime ==
    Cardinality({ o \in DOMAIN objs' : o \notin DOMAIN objs \/ objs'[o] # objs[o] }) <= 1 /\
    \A o \in DOMAIN objs :
       /\ objs'[o].tag = objs[o].tag /\ objs'[o].n = objs[o].n
       /\ Cardinality({ m \in DOMAIN objs'[o].props :
             m \notin DOMAIN objs[o].props \/ objs'[o].props[m] # objs[o].props[m] }) <= 1
       /\ DOMAIN objs[o].props \subseteq DOMAIN objs'[o].props
Frame == [][OneAtATime]_pvars
\* What was just set is what is read, the rest is as before.
=============================================================================
