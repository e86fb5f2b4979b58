--------------------------- MODULE DiagnosticsGen ---------------------------
EXTENDS DiagnosticsMC, Json
Emit == (Len(seen) = MaxExec /\ D # <<>>) => PrintT("HIST" \o ToJson([ops |-> hist, adjusting |-> adjusting, master |-> master]))
=============================================================================
