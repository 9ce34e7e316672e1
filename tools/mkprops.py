#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    P.append(d)
p("L01","Any program text is parsed or refused, never a crash or a hang",
"Parsing and evaluating any text whatsoever (arbitrary characters, token soup, unterminated strings, any nesting depth) ends, and ends in either a value or an error message: it never panics, never exhausts the stack and never loops (programs that compute values too large for memory aside). The same holds for any response body, which is looked at as JSON on receipt: whatever bytes a server sends, the client does not crash or hang. Expressions nested up to 100 levels are accepted.",
["inputs","programs"],"every text of any length and shape, and every response body",
"The parser tests use about 60 well-formed snippets and almost no malformed text; termination and stack safety are claims about all inputs.",
["lib/src/lexer.rs","lib/src/parser.rs","lib/src/evaluator.rs","lib/src/http/response.rs"],
[("token stream always advances and is bounded by Eof","lib/src/parser.rs Parser::parse / parse_nested_expr"),("nesting limit","lib/src/parser.rs Parser::deepen"),("json view of the body","lib/src/http/response.rs Response::to_map")],
["basjoofan eval TEXT","Parser::new(text).parse()","eval_block"])
p("L02","Grammar: operator precedence, left associativity, exact literals, no silent loss",
"An expression means what the operator table says: binary operators bind, from loosest to tightest, || && | ^ & (== !=) (< > <= >=) (<< >>) (+ -) (* / %), all left-associative, below unary ! and -, below calls, indexing and field access; redundant parentheses, whitespace, line breaks and the optional semicolons and trailing commas never change the meaning. Every literal keeps its exact value: 64-bit integers, floats (with or without exponent), and string contents character for character. Text with a bracket, an operand, a comma between items, or a required name or sign (the name and = of a let, the : of a map entry, the name after a dot, the name or template of a request, the name of a test, the else before its block) missing, or with a bracket, comma, sign or keyword where the grammar has no place for one, is refused as a whole: no part of it is run or dropped.",
["programs","inputs"],"every expression tree over all operators and literals, every layout of the same tree, every single-token corruption of that kind, among statements, requests and tests",
"The tests compare the rendering of about 40 fixed expressions; they do not cover most operator pairs, and cannot cover every tree and layout.",
["lib/src/lexer.rs","lib/src/parser.rs","lib/src/token.rs"],
[("precedence table","lib/src/token.rs Token::precedence"),("precedence climbing","lib/src/parser.rs Parser::parse_nested_expr, parse_unary_expr, parse_binary_expr"),("literals","lib/src/lexer.rs segment; lib/src/parser.rs parse_*_literal")],
["value of eval_block"])
p("L03","Operators compute the documented result for every operand pair, or an error",
"For every pair of operand values, each operator yields what the language defines: exact 64-bit integer arithmetic, IEEE double arithmetic when a float is involved, string concatenation and ordering, comparison of like with like (== and != never coerce, so 1 == 1.0 is false; an ordering between unlike types is false), and bit operations on integers only. && and || evaluate the right operand only when the left does not decide (only false and null are falsy) and return the deciding operand; all other operators evaluate left then right. An operation without a representable result (overflow, division or remainder of integers by zero, a bad shift, mismatched types) is an error message: never a panic and never a wrong number.",
["inputs","programs"],"all operators over all pairs of operand values, including the extremes of each type, and expressions composed of them",
"The tests sample about 120 operand pairs, nearly all small and well-typed.",
["lib/src/value.rs","lib/src/evaluator.rs"],
[("arithmetic and ordering of values","lib/src/value.rs impl Add/Sub/Mul/Div/Rem/BitXor/BitOr/BitAnd/Shl/Shr/PartialOrd/PartialEq for Value"),("unary and binary evaluation, short circuit","lib/src/evaluator.rs eval_unary_expr, eval_binary_expr")],
["value of eval_block"])
p("L04","Variables, arrays, maps, indexing, if/else and blocks follow the language",
"A program of let bindings, array and map literals, indexing, field access, if/else and blocks evaluates to the value of its last statement, with every statement executed once in order, only the chosen branch run, and every variable holding the value last bound to it. Values are independent copies: binding, indexing or appending never changes another variable. Reading an array out of range or a map key or field that is absent gives null, the last of duplicate map keys wins, reading an unbound variable is an error, and an error stops the program there with all earlier bindings kept.",
["programs","histories"],"every program over these constructs; every sequence of bindings, rebindings and reads",
"The tests evaluate a few dozen one-line programs with at most two bindings.",
["lib/src/evaluator.rs","lib/src/context.rs"],
[("evaluation","lib/src/evaluator.rs eval_block, eval_let_expr, eval_if_expr, eval_index_expr, eval_field_expr, eval_map_literal"),("bindings","lib/src/context.rs Context::get, set")],
["value of eval_block","Context::get"])
p("L05","format, print, println, length and append do exactly what they say",
"format replaces its placeholders {name}, in order and in one pass, by the text of the following arguments and leaves every other character of the string unchanged, also when an argument itself contains braces or placeholders; a number of arguments different from the number of placeholders is an error. print and println write exactly that text (println adds one line break) and give null. length is the byte length of a string or the number of items of an array or map, append returns a new array with the arguments added in order and leaves the original unchanged; wrong arguments are errors, never panics.",
["inputs"],"every format string and argument list; every argument type and count for every function",
"Six fixed examples in native.rs and a handful in the evaluator tests.",
["lib/src/native.rs","lib/src/evaluator.rs"],
[("native functions","lib/src/native.rs println, print, format, length, append"),("dispatch","lib/src/evaluator.rs eval_call_expr")],
["value of eval_block","stdout of basjoofan eval"])
p("H01","Request templates are filled with the current variables, in one pass, verbatim",
"Each time a request is sent, every placeholder {name} of its template (spaces inside the braces allowed) is replaced by the text of that variable's value at that moment, wherever it stands (method, URL, header, body), and by null when there is no such variable; everything else in the template is sent as written. The text of a value is never scanned for placeholders again, values of any type use their display text, and filling a template never changes the template or the variables.",
["inputs","histories"],"every template and binding of variables, including values that look like placeholders, and repeated sends after rebinding",
"No unit test sends a templated request except against a public host that is unreachable in the test environment, with one variable.",
["lib/src/evaluator.rs"],
[("placeholder replacement","lib/src/evaluator.rs eval_call_expr (request branch)")],
["bytes received by the server"])
p("H02","The request on the wire is the request that was written",
"The bytes sent are exactly one well-formed HTTP message: method (any of the nine standard ones), request target and version of the first line of the template (version HTTP/1.1 when omitted), then every header line once, in order, with name and value as written up to surrounding blanks, an empty line, and the body lines character for character joined by single line breaks (blanks around the whole template are not part of it). A request with a body is framed: when neither Content-Length nor Transfer-Encoding is given a Content-Length with the exact byte length is sent, and headers the template gives are never altered, dropped or duplicated; a request without a body sends no body bytes. The record of the request holds what was sent (the body, when it is not a form).",
["inputs"],"every method, target, header list and body, of any size and content",
"The client tests need public servers, check only the response status and fail offline; one offline test checks only the method.",
["lib/src/http/request.rs","lib/src/http/content.rs","lib/src/http/client.rs","lib/src/http/stream.rs"],
[("message parsing","lib/src/http/request.rs Request::from"),("serialisation","lib/src/http/request.rs Request::write; lib/src/http/content.rs Content::write")],
["bytes received by the server","record.request"])
p("H03","Form and multipart bodies carry every field to the server unchanged",
"With Content-Type application/x-www-form-urlencoded, the server decodes from the body exactly the name: value lines of the template, in order, including repeated names, separators, percent signs, plus signs and any Unicode. With Content-Type multipart/form-data, the Content-Type header sent names the boundary actually used, and parsing the body by it gives exactly the template's parts in order: text values verbatim and, for values @path of a readable file, the file name and the byte-exact contents of that file (names and file names without quotation marks). Content-Length equals the body length in both cases.",
["inputs"],"every list of name/value lines; every file content, including binary, empty, large, and contents that look like boundaries",
"Two tests post fixed fields to a public host and check only the status; nothing decodes the body that was sent.",
["lib/src/http/request.rs","lib/src/http/content.rs"],
[("form encoding","lib/src/http/request.rs Request::from (application/x-www-form-urlencoded arm)"),("multipart encoding","lib/src/http/request.rs Request::from (multipart/form-data arm)")],
["bytes received by the server"])
p("H04","A request goes to the host, port and path its URL names, and nowhere else",
"For every URL scheme://host[:port][/path][?query][#fragment] with scheme http or https in any letter case and a host that is a name or an IPv4 address, the client resolves exactly that host, connects exactly to that port (80 for http and 443 for https when none is given) and requests exactly that path and query (/ when the path is empty). An https URL never leads to a plain connection and http never to TLS. The URL in the record denotes the same scheme, host, port and path.",
["inputs"],"every host name or IPv4 address, every port or none, every path and query, including ones containing ://, :, ?, @ and #",
"Eight URL tests use one host and two paths, never check scheme https, and never check where the connection goes.",
["lib/src/http/url.rs","lib/src/http/stream.rs","lib/src/http/request.rs"],
[("URL splitting and default ports","lib/src/http/url.rs Url::from, Display"),("resolution and connection","lib/src/http/stream.rs Stream::connect, connect_tcp")],
["name looked up, address and port connected to, request target received","record.request.url"])
p("H05","The response a test sees is the response the server sent",
"For every well-formed HTTP/1.x response, after any number of interim ones (1xx except 101), which are passed over, the status, version, reason phrase, every header with all its values in order, and the body (chunked coding removed, otherwise every byte up to the end of the message; bytes that are not UTF-8 replaced, never dropping the rest) are what the server sent, in the record, in the values assertions see and in the value the request call returns. This does not depend on how the network splits the stream into segments, nor on sizes. A chunked body is complete with its last chunk and trailers, also when the server leaves the connection open. A message that is not an HTTP response is reported as an error, never as a response.",
["inputs","schedules"],"every response, every segmentation of its bytes, close-delimited, chunked and Content-Length framing",
"One offline test parses one canned response in one piece; segmentation, repeated headers, chunked coding, large and non-UTF-8 bodies are never exercised.",
["lib/src/http/response.rs","lib/src/http/stream.rs","lib/src/evaluator.rs"],
[("response parsing","lib/src/http/response.rs Response::from, read_line, read_chunks"),("values for assertions","lib/src/http/response.rs Response::to_map")],
["record.response","value of the request call"])
p("H06","A JSON response body is seen in assertions as the document it encodes",
"For every JSON body with nesting below 100 levels and numbers in the 64-bit range, the json value equals the document: objects as maps with every member, arrays in order, strings, booleans and null, and numbers with exact integer or nearest double value, whatever the whitespace. A body that is not JSON never breaks the request: status, headers and body stay available, and nothing in a body is ever executed, sent or bound to a variable.",
["inputs"],"every JSON document and layout; arbitrary non-JSON bodies, including program text",
"One canned document with a single string member.",
["lib/src/http/response.rs","lib/src/syntax.rs","lib/src/lexer.rs","lib/src/parser.rs"],
[("json view","lib/src/http/response.rs Response::to_map"),("literal evaluation","lib/src/syntax.rs Expr::eval")],
["value of the request call"])
p("H07","A failing connection or server is recorded as an error and contained",
"Whatever goes wrong with a request (unknown host, refused connection, connection closed or reset before or inside the status line, the headers or a chunked body, bytes that are not HTTP, failed TLS) the call still returns, the record carries a non-empty error and no response data of this or an earlier request, the request is reported FAIL, and the requests and statements that follow run as if nothing had happened. A request that got a complete response never carries an error.",
["fault_sequences","inputs"],"every kind of fault at every byte position of the exchange, in every order with successful requests",
"No test injects a fault; every network test needs a working public host.",
["lib/src/http/client.rs","lib/src/http/response.rs","lib/src/evaluator.rs","lib/src/context.rs"],
[("error to record","lib/src/http/client.rs Client::send"),("invalid responses","lib/src/http/response.rs Response::from"),("verdict","lib/src/context.rs Display for Record")],
["records","stdout"])
p("H08","https requests reach only a server that proves its name, and only encrypted",
"An https request is delivered, and its response accepted, only over TLS with a server whose certificate is valid now, issued by a trusted root and names the host of the URL; any other certificate (wrong host, expired, not yet valid, untrusted or self-signed) makes the request fail with an error and no byte of the request message is disclosed. No part of an https request is ever sent in clear, and over TLS the request and response bytes are the same as they would be in plain HTTP, for any size. Bytes of the TLS stream that were changed on the way to the client make the request fail; they never pass for a response, whole or in part.",
["configurations","inputs"],"every class of server certificate, every host name form, request and response sizes across TLS record boundaries, a changed byte anywhere in what the server sends",
"The https tests need public hosts with valid certificates; no test presents a bad certificate.",
["lib/src/http/stream.rs"],
[("TLS set-up and verification","lib/src/http/stream.rs Stream::connect_tls"),("record I/O","lib/src/http/stream.rs impl Read/Write for Stream")],
["plaintext seen by the server","raw bytes on the connection","record.error"])
p("H09","A host with several addresses is reachable when any one of them is",
"When a host name resolves to several addresses, the request succeeds if and only if at least one address accepts connections, whatever the order of the addresses, their families, and how slowly the others refuse or hang. The request is delivered exactly once, to one address that accepted, and its response is the one that is recorded. When every address fails, or there are none, the call ends with an error.",
["configurations","schedules","fault_sequences"],"every list of up to six addresses of both families, each accepting, refusing, hanging, or doing so after a delay below or above the racing delay",
"Only the interleaving helper is tested; no test connects to a host with more than one address.",
["lib/src/http/stream.rs"],
[("connection race","lib/src/http/stream.rs Stream::connect_happy, rotate")],
["connections and requests per address","record"])
p("H10","Timings add up, are ordered and charge each phase with its own time",
"For every completed request the recorded total equals resolve + connect + write + delay + read exactly, no phase is negative or larger than the total, and end - start covers the total and lies within the time the call really took. A delay in name resolution, in connecting, while the request is written, before the first response byte, or between the first and the last byte is charged to the resolve, connect, write, delay or read time respectively, and not to another phase.",
["schedules","inputs"],"every combination of delays injected in the phases, on single and multiple address hosts, plain and TLS",
"The tests check only the sum, and only against unreachable public hosts.",
["lib/src/http/client.rs","lib/src/http/time.rs","lib/src/http/stream.rs"],
[("phase clocks","lib/src/http/client.rs Client::send; lib/src/http/stream.rs connect_tcp"),("first byte","lib/src/http/response.rs Response::from")],
["record.time"])
p("T01","The verdict: PASS if and only if there was a response and every assertion holds",
"Each assertion of a request is evaluated exactly once, in order, against that response (status, version, reason, headers, body, json) and not the program's own variables; the record lists for each its text, the text of both sides, the operator and the result, where the result is the language's comparison of the two values and a side that cannot be evaluated counts as null. The printed report shows the same lines in the same order, and PASS exactly when no transport error occurred and every result is true, FAIL otherwise. No assertion is ever left out.",
["inputs","programs"],"every list of assertions over every response, with any comparison operator and operand expressions",
"No offline test evaluates an assertion of a request.",
["lib/src/evaluator.rs","lib/src/context.rs"],
[("assertion evaluation","lib/src/evaluator.rs eval_call_expr (asserts)"),("report","lib/src/context.rs Display for Record, Assert")],
["records","stdout of basjoofan test"])
p("T02","Record files decode, by the Avro specification, to exactly the records written",
"Whatever sequence of records is written, the file is a valid Avro object container whose decoded rows are exactly the records in order, every field (names, numbers, times, headers, bodies, assertions, error) with the value that was recorded, thread and iteration number as given and the order counting from 0 in each write. This holds for empty lists, empty and huge strings, any Unicode and any 64-bit number, and for sinks that accept only part of a write at a time; at any moment the bytes written so far are a readable prefix that ends on a whole write.",
["inputs","histories"],"every history of writes of every record list, every sink behaviour",
"One test writes a single default record and only prints what it decodes.",
["lib/src/writer.rs"],
[("encoding","lib/src/writer.rs Writer::write, encode_long, encode_bytes, header")],
["bytes of the file"])
p("T03","A run makes exactly the iterations asked for, and accounts for each one",
"basjoofan test NAME with -n N and -t T runs the test exactly N times in total over T threads (N/T each, the remainder spread by one), whatever N and T, a thread ending early only when its test fails to evaluate; without NAME every test of the suite runs exactly once; no test other than those asked for runs. Every request a test makes appears exactly once in the printed report, exactly once in the record files (one file per thread, with test name, thread, iteration numbers 0, 1, 2... in order) and exactly once in the statistics, also when a test stops with an error. The record files of a run tell of this run only, whatever an earlier one left at the same place.",
["configurations","schedules"],"every N, T, set of tests and request counts, with and without record and stat output, with failing tests",
"One CLI test runs one test once against a public host.",
["cmd/src/command.rs","cmd/src/main.rs"],
[("work division","cmd/src/command.rs test"),("record files","cmd/src/command.rs writer"),("statistics","cmd/src/command.rs test (stats thread)")],
["requests received by the server","stdout","record files"])
p("T04","Statistics are the exact count, sum, average, maximum and minimum per request",
"For every history of samples the statistics list each request name exactly once, with count, sum, maximum and minimum equal to those of its samples, average equal to the sum divided by the count rounded down, regardless of order and of the other names. In a run they agree with the total times of the records of that run.",
["histories"],"every sequence of names and durations up to 64-bit milliseconds",
"There is no test of the statistics.",
["lib/src/stat.rs","cmd/src/command.rs"],
[("accumulation","lib/src/stat.rs Stat::new, Stat::add, Stats::add"),("rendering","lib/src/stat.rs Display")],
["Display of Stats","stdout of basjoofan test -s"])
p("T05","Concurrent threads and tests do not influence each other",
"Every thread and every test of a run starts from the variables and requests of the suite as loaded, and keeps its own from then on: what one thread or test binds, sends or receives is never visible to another, while iterations within a thread see the bindings of the earlier ones. Each printed record report is one contiguous block of lines, whatever runs at the same time, and each record file contains only its own thread's records.",
["schedules","configurations"],"every set of tests binding and reading shared names, any number of threads, under arbitrary scheduling",
"No test runs more than one thread.",
["cmd/src/command.rs","lib/src/context.rs"],
[("context copy per thread","cmd/src/command.rs test; lib/src/context.rs Clone for Context"),("report in one write","cmd/src/command.rs test (println of a record)")],
["requests received by the server","stdout","record files"])
p("T06","Stopping early loses nothing that was finished",
"When the run of a named test is stopped by its duration or by an interrupt signal, no iteration is started after that, the iterations under way complete, and the run ends with every completed request in the report, in the record files and in the statistics. When any run is killed at any moment, each record file holds, readable and unaltered, its thread's iterations from the first on, lacking at most the one in progress.",
["crash_points","schedules","histories"],"every moment of SIGINT, SIGKILL or the end of the duration relative to the requests of one or more threads",
"No test interrupts a run or sets a duration.",
["cmd/src/command.rs","lib/src/writer.rs"],
[("stop flag","cmd/src/command.rs handle_interrupt, test (duration thread)"),("whole blocks","lib/src/writer.rs Writer::write")],
["stdout","record files","requests received by the server"])
p("T07","A suite is all the .fan files under the path, in order, and nothing else",
"Given a directory, the suite consists of exactly the files below it, at any depth, whose extension is fan, read in path order with the entries of each directory sorted by name, as if written one after the other; given a .fan file, of that file. How definitions are distributed over files never changes the outcome: top-level statements run once, in that order, before any test; every request and test of any file is available to all; and the last definition of a name wins. When a file of the suite is malformed or not UTF-8 text, that is said and no part of the suite is run.",
["configurations","inputs"],"every directory tree of fan and other files, every split of a program over files at statement boundaries",
"One test with one file in one directory.",
["cmd/src/command.rs"],
[("suite loading","cmd/src/command.rs read, read_to_string"),("definitions","lib/src/parser.rs Parser::parse")],
["stdout of basjoofan test"])
p("T08","A REPL session behaves like one program, and survives every line",
"In a session each line is evaluated once, in order, against the variables and requests left by the lines before it, and prints its value or an error message; blank lines, and lines that are not UTF-8, change nothing. A line that is malformed or fails prints an error and leaves the definitions made earlier intact, with later lines unaffected; the session ends at a line exit or at the end of the input, with everything answered.",
["histories"],"every sequence of valid, failing, malformed, blank and non-UTF-8 lines, with or without exit",
"One test with a single line.",
["cmd/src/command.rs","lib/src/context.rs"],
[("loop","cmd/src/command.rs repl, eval")],
["stdout of basjoofan"])
p("T09","Command-line arguments mean what they say or are refused",
"A duration is a decimal number followed by s, m or h and limits the run to that many seconds, minutes or hours; threads is a number of at least 1, number a 32-bit count; any other value (missing or unknown unit, minus sign, fraction, overflow, zero threads) is refused with an error message and a non-zero exit before anything is run. eval prints the value, or the error message, of exactly the text it is given, and no combination of arguments makes the command panic.",
["inputs","configurations"],"every argument string for every option, and every text for eval",
"The tests use no option at all.",
["cmd/src/main.rs","cmd/src/command.rs"],
[("argument types","cmd/src/main.rs Commands"),("duration","cmd/src/main.rs parse_duration")],
["exit status, stdout and stderr of basjoofan"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
