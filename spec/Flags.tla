-------------------------------- MODULE Flags ---------------------------------
(* The application's flags as metrics below /proc/flags.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

\* what the getter of a sort of flag returns; "" if it is nothing supported
\* or there is no getter
Gets == [bool |-> "bool", int |-> "int64", int64 |-> "int64", uint |-> "uint64", uint64 |-> "uint64",
         string |-> "string", float64 |-> "float64", duration |-> "goDuration",
         func |-> "", boolfunc |-> "", textip |-> "", texttime |-> "goTime",
         getonoff |-> "bool", getuint8 |-> "uint8", getint16 |-> "int16", getuint32 |-> "uint32",
         getuint64 |-> "uint64", getfloat64 |-> "float64", getstring |-> "string",
         nogetter |-> "", getint8 |-> "int8", getuint16 |-> "uint16", getint32 |-> "int32", getfloat32 |-> "float32",
         gettime |-> "goTime", gettimeptr |-> "goTime", getduration |-> "goDuration",
         getuserint |-> "int64", getuserstring |-> "string", getuserduration |-> "int64",
         getnil |-> "", getslice |-> "", getstruct |-> "", getptr |-> "", getfunc |-> ""]
Types == DOMAIN Gets
\* flags are reported by what their getter gives, else by their string form
FlagKind(t) == IF Gets[t] = "" THEN "string" ELSE Gets[t]
DefaultUnit(t) == IF Gets[t] = "goDuration" THEN "Seconds" ELSE "None"

None == [t |-> "", v |-> "", d |-> ""]
\* defined: flag -> [t, v, d];  unitOf: flag -> unit set or "";
\* registered: flag -> unit it was registered with or ""
\* Registering registers what is defined and is not registered yet.
Registering(def, un, reg) ==
  [n \in DOMAIN reg |-> IF reg[n] # "" \/ def[n] = None THEN reg[n]
                        ELSE IF un[n] # "" THEN un[n] ELSE DefaultUnit(def[n].t)]
\* what is reported of a registered flag
Shown(def, reg, n) == [k |-> FlagKind(def[n].t), v |-> def[n].v, u |-> reg[n], d |-> def[n].d]
=============================================================================
