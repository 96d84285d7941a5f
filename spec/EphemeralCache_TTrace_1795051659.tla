---- MODULE EphemeralCache_TTrace_1795051659 ----
EXTENDS Sequences, TLCExt, EphemeralCache, Toolbox, Naturals, TLC

_expression ==
    LET EphemeralCache_TEExpression == INSTANCE EphemeralCache_TEExpression
    IN EphemeralCache_TEExpression!expression
----

_trace ==
    LET EphemeralCache_TETrace == INSTANCE EphemeralCache_TETrace
    IN EphemeralCache_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        hist = (<<"readx", "remake", "readx">>)
        /\
        at = ([X |-> 2, E |-> 0])
        /\
        used = (<<<<"X", 1>>>>)
        /\
        table = ((<<"X">> :> <<1>> @@ <<"E">> :> <<>> @@ <<"X", "E">> :> <<>>))
    )
----

_init ==
    /\ at = _TETrace[1].at
    /\ hist = _TETrace[1].hist
    /\ table = _TETrace[1].table
    /\ used = _TETrace[1].used
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ at  = _TETrace[i].at
        /\ at' = _TETrace[j].at
        /\ hist  = _TETrace[i].hist
        /\ hist' = _TETrace[j].hist
        /\ table  = _TETrace[i].table
        /\ table' = _TETrace[j].table
        /\ used  = _TETrace[i].used
        /\ used' = _TETrace[j].used

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("EphemeralCache_TTrace_1795051659.json", _TETrace)

=============================================================================

 Note that you can extract this module `EphemeralCache_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `EphemeralCache_TEExpression.tla` file takes precedence 
  over the module `EphemeralCache_TEExpression` below).

---- MODULE EphemeralCache_TEExpression ----
EXTENDS Sequences, TLCExt, EphemeralCache, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `EphemeralCache` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        at |-> at
        ,hist |-> hist
        ,table |-> table
        ,used |-> used
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_atUnchanged |-> at = at'
        
        \* Format the `at` variable as Json value.
        \* ,_atJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(at)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_atModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].at # _TETrace[s-1].at
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE EphemeralCache_TETrace ----
\*EXTENDS IOUtils, EphemeralCache, TLC
\*
\*trace == IODeserialize("EphemeralCache_TTrace_1795051659.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE EphemeralCache_TETrace ----
EXTENDS EphemeralCache, TLC

trace == 
    <<
    ([hist |-> <<>>,at |-> [X |-> 1, E |-> 0],used |-> <<>>,table |-> (<<"X">> :> <<>> @@ <<"E">> :> <<>> @@ <<"X", "E">> :> <<>>)]),
    ([hist |-> <<"readx">>,at |-> [X |-> 1, E |-> 0],used |-> <<<<"X", 1>>>>,table |-> (<<"X">> :> <<1>> @@ <<"E">> :> <<>> @@ <<"X", "E">> :> <<>>)]),
    ([hist |-> <<"readx", "remake">>,at |-> [X |-> 2, E |-> 0],used |-> <<>>,table |-> (<<"X">> :> <<1>> @@ <<"E">> :> <<>> @@ <<"X", "E">> :> <<>>)]),
    ([hist |-> <<"readx", "remake", "readx">>,at |-> [X |-> 2, E |-> 0],used |-> <<<<"X", 1>>>>,table |-> (<<"X">> :> <<1>> @@ <<"E">> :> <<>> @@ <<"X", "E">> :> <<>>)])
    >>
----


=============================================================================

---- CONFIG EphemeralCache_TTrace_1795051659 ----
CONSTANTS
    Addr = { 1 , 2 , 3 }
    Depth = 5
    Gen = FALSE
    Always = FALSE

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 01:27:40 UTC 2026