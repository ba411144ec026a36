#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the long texts stay readable in review).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

AF=["src/AtomicFile.h","src/AtomicFile.cpp"]
RCA=["src/ReferenceCountedArray.h","src/ReferenceCountedArray.cpp","src/String.h","src/String.cpp","src/Array.h","src/Stream.h","src/Stream.cpp"]
TCL=["src/ScriptInterp.h","src/ScriptInterpTCL.h","src/ScriptInterpTCL.cpp","src/ScriptInterpTCLCallbacks.h"]

p("C01","AtomicFile: the target is always the complete old or the complete new file",
  "While a file is being replaced through AtomicFile, every observer of the target name - a concurrent reader at any instant, or whoever looks after a machine crash at any instant - finds either the complete previous file (or its absence, if there was none) or the complete bytes written in a session whose commit was called, carrying the permission mode that session asked for (owner-only access if it asked for none). A torn, empty, partially written, missing or wrong-mode target is never observable. After a crash a new session on the same target works normally.",
  ["crash_points","schedules","fault_sequences","histories"],
  "Every crash instant between and inside system calls, every subset of un-synced data and prefix of un-synced metadata surviving it, every interleaving with readers, every history of earlier sessions, every failing call.",
  "The tests commit once on a healthy disk and read the file back; they never crash, never look at the target mid-session, and every data page they write is durable by luck.",
  AF,[("temp file in the target's directory","AtomicFile::open"),("fchmod, fsync, close, then rename, in that order","AtomicFile::commit")],
  [("_tmpname/_fname/_fd/_mode","the session's temporary, target, descriptor and requested mode","src/AtomicFile.h")],
  ["the target path in the file system, live and in every crash image","Stream::loadFile of the target"])
p("C02","AtomicFile: commit() and abort() report exactly what happened",
  "If commit returns true, the target held exactly the bytes written in that session, with the requested mode when one was given, by the time it returned, and those bytes and that mode had been synced to storage before the name was switched; if it returns false, the target still is what it was before. commit fails only when it was called without an open session or when an underlying system call failed, and a failing call anywhere in its sequence is never reported as success. abort and destruction never change the target.",
  ["fault_sequences","inputs","histories"],
  "Every choice of which system calls fail and how, at every position in any sequence of open/write/commit/abort calls, every content and mode.",
  "The tests inject no failure at all: no failing fchmod, fsync, close, rename or write is ever seen, so no error path runs.",
  AF,[("result only set after the rename succeeded","AtomicFile::commit"),("abort unlinks and closes without touching the target","AtomicFile::abort")],
  None,["return values of open/commit/abort/is_open/fd","content, mode and existence of the target"])
p("C03","AtomicFile: a finished session leaves nothing behind and touches nothing else",
  "Whenever an AtomicFile is not open - after commit or abort with either result, after destruction, after a failed open, after being reopened over an unfinished session - it holds no descriptor, and no temporary file of its sessions remains unless the system call that would have removed it failed. No file other than the session's own target and temporary is ever created, changed, renamed or removed, and no descriptor other than its own is closed. Extra commit or abort calls on a session that is not open return false and have no effect.",
  ["fault_sequences","histories","schedules"],
  "Every sequence of calls (repeated, out of order, reused objects), every failing system call or allocation, every coincidence of temporary names and descriptor numbers with those of other files and sessions.",
  "The tests only look at the happy path plus one abort; descriptors are never counted, names never collide, calls never fail.",
  AF,[("descriptor closed and temp unlinked on every exit path","AtomicFile::commit / AtomicFile::abort"),("destructor aborts","AtomicFile::~AtomicFile")],
  None,["open descriptors","directory contents","bystander files"])
p("C04","AtomicFile: concurrent sessions do not interfere",
  "Sessions running at the same time in different threads or processes, on the same or on different targets, do not affect each other: each successful commit installs exactly its own bytes at one instant between its call and its return, the target's history is the sequence of those instants, and a reader always gets one whole committed version. A session never fails, and never loses its temporary or its descriptor, because of another session.",
  ["schedules","fault_sequences","histories"],
  "Every interleaving of several sessions and readers at system-call granularity, every choice of which of them suffer failing calls.",
  "All tests are single threaded and hold one session at a time.",
  AF+["src/Stream.cpp"],[("unique temporary per session (mkstemp)","AtomicFile::open"),("rename as the single linearization point","AtomicFile::commit")],
  None,["history of target versions against commit call/return intervals"])
p("C05","Stream::writeFile returns 0 exactly when the file holds the stream",
  "When writing a stream to a named file or to a caller's descriptor returns 0, the file contains exactly the stream's bytes, no more and no fewer, whatever it held before; when any needed system call fails or transfers only part of the data in a way that cannot be completed, it returns non-zero instead of crashing or reporting success, and without such a failure it returns 0. A new file gets the requested mode. The stream is unchanged, a caller's descriptor stays open, every descriptor and mapping it acquired is released, and no other file is touched.",
  ["fault_sequences","inputs","configurations"],
  "Every content (including empty, and larger than a page), every previous file state, every failing or short system call, both build configurations (with and without mmap).",
  "Tests write small files on a healthy disk in one build configuration; no call fails, nothing is short, the disk is never full.",
  ["src/Stream.h","src/Stream.cpp"],[("set size, transfer all bytes, check every result","Stream::writeFile(int) and Stream::writeFile(String)")],
  None,["return value","file bytes","open descriptors and mappings"])
p("C06","Stream::loadFile returns 0 exactly when the stream holds the whole file",
  "When loading from a named file or a caller's descriptor returns 0, the stream contains exactly the file's bytes (empty for an empty file) with its position at the start; a failed or incomplete read is never reported as success with missing data, and without a failing call or a failing allocation it returns 0. A caller's descriptor stays open, every descriptor and mapping it acquired is released on every path including exceptions, and the stream stays usable afterwards; the data is delivered through puts with the loading flag set, and the flag is clear once the call is over. If another program shortens or lengthens the file meanwhile, the call still ends and what it gives as success is the file's bytes up to a length the file had during the call.",
  ["fault_sequences","inputs","configurations"],
  "Every file content and size, every failing or short system call or allocation, every earlier state of the stream and descriptor, both build configurations.",
  "Tests load healthy non-empty files; no failing or short read, no empty file, no allocation failure, no descriptor accounting, one configuration.",
  ["src/Stream.h","src/Stream.cpp"],[("size probe, transfer, release on every path","Stream::loadFile(int) and Stream::loadFile(String)")],
  None,["return value","stream bytes, position","open descriptors and mappings"])
p("C07","Values sharing storage behave as independent values in every interleaving",
  "Strings, arrays, streams and hash tables copied, sliced, moved or assigned from one another share storage internally, but each one behaves like a private value: whatever the other holders of the same storage do, in the same or in other threads, reading it returns exactly the result of its own operations applied in order to its own initial value. Threads need no locking as long as each object is used by one thread at a time, and several threads may copy from one common object that nobody modifies.",
  ["schedules","histories","inputs"],
  "Every interleaving of up to several threads, at the granularity of single memory accesses, of arbitrary sequences of the value operations (copy, slice, move, assign, append, insert, replace, write, resize, reserve, clear, shift, pop, read, search, c-string access, put, seek, truncate ...) on values sharing buffers.",
  "Every test is single threaded, so the reference counts never change between a check and its use; and the few sharing tests use short fixed histories.",
  RCA+["src/HashTable.h"],[("atomic reference count, copy before write when shared","ReferenceCountedArray::AboutToModify / COW"),("offset/length views on one buffer","ReferenceCountedArray::slice")],
  [("refs","number of holders of a buffer","ArrayRef"),("offset, sublen","each holder's private view","ReferenceCountedArray")],
  ["the contents, length and results of every value, against a private model per value"])
p("C08","Shared storage is race-free and reclaimed exactly once in every interleaving",
  "In every interleaving of threads creating, copying, slicing, modifying and destroying values that share storage, no memory is used after it was released or outside its bounds, none is released twice, there is no data race, and once the last holder is gone all storage has been released. This includes the elements held by arrays: each element constructed is destroyed exactly once.",
  ["schedules","histories"],
  "Every interleaving at memory-access granularity of copy/slice/modify/assign/destroy operations on values sharing buffers, for character, integer and class elements.",
  "A reference-count race needs two threads inside a few-instruction window; the single-threaded tests can neither produce it nor observe a leak.",
  RCA,[("atomic increment/decrement; whoever drops the count to zero frees","ReferenceCountedArray::CheckDeallocRef / doDetach"),("element destruction","ArrayRef::FreeBuf")],
  [("refs","number of holders of a buffer","ArrayRef")],
  ["every memory access against the allocation state and the happens-before order","live allocations after all values are gone"])
p("C09","The last String destroyed wipes its characters in every interleaving",
  "When String objects are destroyed, in whatever order and on whatever threads, the destruction that releases a character buffer first overwrites all of the buffer's contents, so no text ever stored in it is left in the freed memory - including text outside the part the last String still showed. Buffers still held by another String are never overwritten.",
  ["schedules","histories"],
  "Every order and interleaving of destroying, copying and slicing Strings that share a buffer, every history of what the buffer held.",
  "The tests never look at freed memory, and the racy case (two threads dropping the last two references together) cannot occur in them.",
  ["src/String.h","src/String.cpp","src/ReferenceCountedArray.h"],[("cleanse before the last reference is dropped","String::~String / String::cleanse")],
  None,["bytes of a character buffer at the moment it is freed by a destructor","contents of surviving Strings"])
p("C10","A failed allocation never damages a container",
  "When memory runs out during an operation on a String, Array, Stream or HashTable, the operation throws std::bad_alloc and the program goes on: every object involved still has its exact previous value when the operation adds to or modifies part of it (append, insert, replace, element write, resize, reserve, put, table insert) or only reads it, and a valid value - the previous one or empty - when the operation was replacing it as a whole by assignment. Nothing leaks, other values sharing the storage are untouched, and the same operation succeeds when tried again with memory available. (Where the elements' own copying allocates, replacing several elements or inserting a range may have copied some of them.)",
  ["fault_sequences","histories","inputs"],
  "Every operation, every position of the failing allocation inside it, every state of sharing of the buffers involved, any number of failures in a history.",
  "No test ever makes an allocation fail.",
  RCA+["src/HashTable.h"],[("allocate before letting go of the old buffer","ReferenceCountedArray::COW / ArrayRef::reserve")],
  None,["values before and after the throwing call","live allocations"])
p("C11","C-string and base64 helpers fail closed when memory runs out",
  "The C-string duplication and allocation helpers never return a null pointer or write through one when memory is exhausted: they end the process with exit status 5, having returned nothing partial. The base64 functions never crash, leak or return partial data on exhaustion: the String versions throw std::bad_alloc, and the buffer versions return null.",
  ["fault_sequences","inputs"],
  "Every call sequence and every position of the failing allocation.",
  "No test ever makes an allocation fail.",
  ["src/Cstrings.cpp","src/Cstrings.h","src/base64.cpp","src/base64.h"],[("checked calloc/realloc wrappers","Cstrings.cpp calloc/realloc"),("result buffer handling","b64enc / b64dec / base64Encode / base64Decode")],
  None,["process exit status","returned pointers and exceptions","live allocations"])
p("C12","A script command always runs the handler currently registered for it",
  "After any history of creating, redefining and deleting host commands - including from inside running handlers, nested to any depth, and under renaming, aliasing or namespace-qualified invocation by the script - calling a command runs exactly once the handler most recently registered for it, with the arguments the script gave (a word that denotes no value of a numeric parameter's type counts as 0, a malformed list as empty), and returns its result (nothing, for a handler that returns nothing) to the script; a deleted command is an ordinary unknown-command script error, and deleting a name that now belongs to a procedure of the script leaves that procedure alone. A handler that redefines or deletes its own command while running completes normally and the change takes effect for later calls. A script callback handed to a handler, whenever the host calls it, runs that script command with exactly the host's arguments, one word each whatever they contain.",
  ["histories","programs","fault_sequences"],
  "Every interleaving of nested script and host events over a set of command names, every way of naming a command, every argument list.",
  "The tests register, call and delete commands one at a time from the top level; they never re-enter, redefine a running command, rename it or qualify its name.",
  TCL,[("table of registered handlers","ScriptInterpTCL::_createCommand / deleteCommand"),("dispatch from the script","ScriptCmdTCL::_createCommand_callback")],
  None,["which handler ran with which arguments","script result and error status"])
p("C13","Handler failures stay script errors and the interpreter stays usable",
  "A wrong number of arguments, an exception of any type or a memory allocation failure in a host command handler or in the hook of a linked variable surfaces to the script as an ordinary catchable error - with the usage of the command after a wrong number of arguments, with a thrown String as its message - without running or re-running the handler, and never unwinds through or terminates the interpreter. At any nesting depth, afterwards the interpreter, its commands and its linked variables work as before, and nothing leaks.",
  ["fault_sequences","histories","programs"],
  "Every argument count, exception type, nesting of catch, eval and handlers, and failing allocation position inside a handler call.",
  "One test throws one String from one top-level handler; allocation failures, other types and nested unwinding are never exercised.",
  TCL,[("arity check and catch-all around the handler","ScriptCmdTCL::_createCommand_callback")],
  None,["script-visible result and error status","later calls on the same interpreter"])
p("C14","A linked variable and its host variable are always the same value",
  "While a host variable is linked to a script variable (a scalar or an array element), at every point of any history - except from inside that variable's own hook - a read from the script yields the host variable's current value and a write from the script stores the written value in the host variable (0 or empty for a word that denotes no value of its type), bounded by and terminated within its buffer for character arrays; a read-only link rejects writes leaving both sides unchanged, and a write for which memory runs out is a script error that leaves the host variable unchanged. Each successful script write calls the link's hook, if it has one, exactly once with the old and the new value, however the script names the variable. Unlinking, unsetting or relinking the name ends every effect of the old link on the old host variable.",
  ["histories","programs","inputs"],
  "Every interleaving of host writes, script reads and writes (direct, qualified, by alias), link, relink and unlink events, every type and value, hooks that re-enter the interpreter.",
  "The tests link each variable once, write it by its plain name and never relink with another buffer, hook or type.",
  TCL,[("read and write traces bound to the host variable","ScriptInterpTCL::setupTraces / tcl_traceGet / tcl_traceSet / tcl_traceSetPtr"),("unset on unlink","ScriptInterpTCL::unlinkVar")],
  None,["host variable memory","script-side values","hook invocations"])
p("C15","Interpreters are isolated from each other, in life and in death",
  "Several interpreters alive at the same time, in one thread or one per thread, never affect each other: creating, redefining, deleting or calling a command, linking, writing or unlinking a variable, or destroying one of them changes nothing for the others, even for equal names. Destroying an interpreter removes everything it owned, runs no handler or hook, and leaks nothing.",
  ["histories","schedules"],
  "Every interleaving of operations on several interpreters, including their construction and destruction in any order and on several threads.",
  "The tests use a single interpreter at a time, except one, and never destroy one while using another; never threads.",
  TCL,[("per-interpreter registries","ScriptInterpTCL members"),("teardown","ScriptInterpTCL::~ScriptInterpTCL / destroy")],
  None,["handlers run, variables seen and results in each interpreter against one model per interpreter"])
p("C16","loadScript reports truthfully what was loaded",
  "Loading a script file reports success only if the whole file (up to a control-Z, which ends a Tcl script) was read and evaluated without error; an unreadable, failing or truncated-by-error read, and an error raised by the script, are reported as a load error with a message, and a file whose name does not end in .tcl is refused as foreign without being opened. Whatever the outcome, the interpreter stays usable, effects of a script that was never fully read are absent, and no descriptor is leaked.",
  ["fault_sequences","inputs","histories"],
  "Every script file, every failing or short system call while it is opened and read, any order of loads and evaluations.",
  "The tests load healthy files; no open, stat, read or seek ever fails or returns short.",
  TCL,[("name check, evaluation, error text","ScriptInterpTCL::loadScript")],
  None,["return value and message","script effects","open descriptors"])
p("C17","eval reports what the script did, at every depth and after any history",
  "Evaluating a script from the host - at the top level or from inside a handler called by another script, to any depth - always returns: the script's result if it completed (also by return), otherwise a text that begins with the error message of that very error, never of an earlier one. This holds after any history, also when scripts replaced or removed core commands or the error variables of their interpreter. If memory runs out the call throws, and the interpreter stays usable.",
  ["histories","programs","fault_sequences"],
  "Every nesting of successful, returning and failing scripts and handlers, every earlier redefinition of commands and error variables by scripts, every failing allocation.",
  "The tests evaluate scripts at the top level of an intact interpreter; no nested eval returns or fails and no script touches set or errorInfo.",
  TCL,[("evaluation and error text","ScriptInterpTCL::eval")],
  None,["text returned by eval","termination"])
p("C18","A host call on the interpreter that runs out of memory changes nothing",
  "When memory runs out while the host creates, redefines or deletes a command or links, relinks or unlinks a variable, the call throws std::bad_alloc and everything stays as it was before the call: the previous handler still serves the command, the previous link still connects its host variable and hook, nothing refers to the host variable that was to be linked, and nothing leaks. The same call succeeds when tried again, and the interpreter goes on working, also when the call was made from inside a handler or hook.",
  ["fault_sequences","histories"],
  "Every such call, every position of the failing allocation inside it, every history before it and after it, names given as any String (also as part of a longer one).",
  "No test ever makes an allocation fail.",
  TCL,[("allocate before changing the interpreter","ScriptInterpTCL::_createCommand / setupTraces / deleteCommand / unlinkVar")],
  None,["which handler runs afterwards","which host variable a script variable reads and writes afterwards","live allocations"])
# Not applicable
p("C20","base64 encoding and decoding are inverse and standard conforming",
  "Encoding any bytes gives standard base64, and decoding an encoding gives back the bytes, for the default and for custom alphabets.",
  ["inputs"],"All byte strings and alphabets.","Tests sample a few strings.",
  ["src/base64.cpp"],[("b64enc_buf/b64dec_buf","src/base64.cpp")])
p("C21","Searching, splitting, joining and substituting Strings follow their definition",
  "find, rfind, ifind, split, join, sub, subst, trim, chomp and newsplit return what their documentation defines for all inputs.",
  ["inputs"],"All strings, delimiters and limits.","Tests sample a few strings.",
  ["src/String.cpp","src/Array.h"],[("String::_find, split, sub","src/String.cpp")])
p("C22","Comparison is a total order consistent with equality and hashing",
  "String and Array comparison is a total order consistent with equality, and equal values have equal hashes.",
  ["inputs"],"All pairs and triples of values.","Tests sample a few pairs.",
  ["src/String.cpp","src/ReferenceCountedArray.h"],[("String::compare, hash","src/String.cpp")])
p("C23","strlcpy and strlcat never overrun and always terminate",
  "The bounded copy and append functions never write beyond the given size, always terminate a non-empty destination and return the length they tried to create.",
  ["inputs"],"All sources, destinations and sizes.","Tests do not cover them.",
  ["src/Cstrings.cpp"],[("strlcpy/strlcat","src/Cstrings.cpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
