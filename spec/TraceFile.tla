------------------------------ MODULE TraceFile ------------------------------
(* The recorded executions: one case per line of the file named by TRACE.     *)
EXTENDS Json, IOUtils
TraceData == ndJsonDeserialize(IOEnv.TRACE)
==============================================================================
