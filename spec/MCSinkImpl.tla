----------------------------- MODULE MCSinkImpl -----------------------------
EXTENDS SinkImpl
MCOps == [f : {"cb", "bytes"}, s : Streams, n : {1, 3, 4, 6}] \union [f : {"flush"}, s : Streams, n : {0}]
\* Records of one size, written with the callback: stands for the event stream.
EvOps == [f : {"cb"}, s : {1}, n : {1}] \union [f : {"cb"}, s : {2}, n : {3}] \union [f : {"flush"}, s : {1}, n : {0}]
=============================================================================
