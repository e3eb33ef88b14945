"""Assumptions of each property, for its evidence (DESIGN.md explains them)."""
from lvc.spec import *
def A(x,*ts):
    for i in x.split(): prop(i).assume.extend(ts)
import strings,encoding,bits,http1,kv,html,ws,net,transport,sse,wsx,sha1,js,prop19,misc,vfs,comp,static,kvs,server
A('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C30 C32','reference parameters do not refer to overlapping objects (unless the contract says so)')
A('C05 C06 C07 C08 C11 C25 C32','isalnum and tolower act as in the C locale')
A('C11 C12 C13 C15 C16 C17 C26','recv, send, poll, setsockopt, shutdown and close are models: recv hands out the next bytes of an arbitrary stream in pieces of any size, reports the end or an error; send takes any part of what it is given or fails','the clock is arbitrary')
A('C16 C17','the transport under a websocket or event stream keeps its interface contract; HTTP/1 refines it by the contracts of C11 to C13 and C26','the prophecy $rest names the bytes that will arrive')
A('C16','each member is verified as if no other thread ran meanwhile; the consumer and the worker run concurrently only in the harness')
A('C12','Date texts and request identifiers are arbitrary','the compressors keep the contracts of C20')
A('C18 C19','floating-point numbers are atoms; their texts are what the C library gives')
A('C19','nested containers are atoms whose library copy equals the original')
A('C28','one fwrite of a whole line is atomic among threads')
A('C30','gmtime_r and strftime compute the proleptic Gregorian calendar in the C locale')
A('C04 C11','the random source is arbitrary')
A('C22','each operation is verified sequentially under its mutex')
A('C24','the file system answers consistently and does not change during a call (isfile, isdir, pexists, fopens, filetext)')
A('C13','the handshake and upgrade responses are those of the transport contracts')
A('C21','files are a map from names to bytes: any file operation may fail, a failed write leaves any bytes, a rename replaces the file at once, flushed bytes are in the file; no other process writes the file','each member is verified as if no other thread ran meanwhile: all take the mutex; concurrent callers run in the harness')
A('C14','what JSON::stringify writes is left to C18','the service page template is not looked at')
