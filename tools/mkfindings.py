#!/usr/bin/env python3
"""Writes known_findings.jsonl: genuine defects that are recorded (kind finding) and those that were repaired (kind fixed)."""
import json, os
out=[]
def finding(prop,id,what): out.append(dict(kind="finding",property=prop,id=id,what=what))
def fixed(prop,commit,what): out.append(dict(kind="fixed",property=prop,commit=commit,what="fixed: property=%s %s %s"%(prop,commit,what)))
finding("H03","H03-order","a multipart request with file parts: all text parts are sent first, then the files from the last to the first (template b:@b, a:@a, t:1 arrives as t, a, b); the multipart crate's lazy preparation reorders them")
finding("H05","H05-keepalive","a response with Content-Length on a connection the server keeps open: the call returns only when the server closes the connection, however long that takes (status 200, Content-Length: 2, body ok, then silence for some seconds)")
finding("H06","H06-escapes","a JSON body with a backslash escape in a string (\"\\n\", \"\\u00e9\", \"\\\"\") is seen with the backslash sequence undecoded, or as no JSON at all when an escaped quotation mark splits the string")
finding("T01","T01-dropped","an assertion that is not a comparison at its top level ([json.ok], [(status == 200)], [status == 200 && json.ok]) is neither evaluated nor listed, and the request is reported PASS")
fixed("L01","d380202","a prefix operator after a complete expression made the parser loop for ever (1 !)")
fixed("L01","d3f11c1","deeply nested text overflowed the stack of the parser and the evaluator")
fixed("L01","77360fc","a response body with nested maps as map keys exhausted memory ({{{...1: 1}: 1}: 1})")
fixed("L03","c2b0fa3","integer overflow, division by zero and bad shifts panicked (or wrapped in release builds)")
fixed("L03","3b68a7c","negating the smallest integer panicked")
fixed("L02","0654b8c","an exponent of a number was split off and dropped (1e3 was 1)")
fixed("H02","67e3b3d","the line breaks of a request body were removed")
fixed("H02","a8ba84a","a request with a body was sent without Content-Length")
fixed("H02","f3d5168","the fragment of a URL was sent in the request line")
fixed("H03","7c74469","names and values of form and multipart fields kept the blanks around them")
fixed("H03","f84b95f","the Content-Type of a multipart request did not name the boundary")
fixed("H04","b8372df","a URL with :// in its query lost the part after it")
fixed("H04","147dd79","a query directly after the host was taken for part of the host name")
fixed("H04","afa7803","the URL in the record lost a port that is not the default of its scheme")
fixed("H04","525e0ff","an upper-case scheme (HTTPS://) was requested in clear over http")
fixed("H05","ba3bd71","only the first word of a reason phrase was kept")
fixed("H05","bf1be57","a body with bytes that are not UTF-8 was an error and lost")
fixed("H05","5e3a640","a chunked body was shown with the chunk sizes in it")
fixed("H05","3363090","an empty or malformed status line was taken for a response with status 0")
fixed("H05","7591bc7","a line that does not start with HTTP/ was taken for a response")
fixed("H05","c199327","blanks inside a reason phrase were collapsed")
fixed("H05","7deb7dd","a status that does not have three digits was taken for a response")
fixed("H06","c9901cb","the number -9223372036854775808 made the document no JSON, and could not be written in a program")
fixed("H06","39a1b30","negative numbers in a JSON body were null")
fixed("H07","030c360","a connection closed inside the status line or headers was taken for a complete response")
fixed("H07","9e4bc5d","a chunked body cut off by the end of the connection was taken for a complete one")
fixed("T01","1d958a9","a request with a transport error and no assertions was reported PASS")
fixed("T02","e7e9ce2","arrays in record files had no end markers, so that readers failed")
fixed("T02","3dacbcc","a sink accepting part of a write lost the rest")
fixed("T02","3ee61a7","writing no records wrote an empty block")
fixed("T03","b6206f4","the remainder of iterations by threads was not run")
fixed("T03","dc90eb5","requests made before a failing statement were not reported, recorded or counted")
fixed("T03","87c76b7","requests of a run of all tests were missing from the statistics")
fixed("T09","444b33f","zero threads panicked")
fixed("T09","dd8d0d3","a duration too large panicked")
fixed("T08","c0dc4cc","the session did not end at the end of the input but printed prompts for ever")
fixed("T07","ccf689c","the last line of a suite file was joined with the first of the next one")
fixed("T09","8a0fd87","an unreadable suite file or record directory made the command panic")
fixed("H06","9af9c43","a body negating the smallest integer (- -9223372036854775808) made the request panic")
fixed("T06","eb93116","an interrupt while the threads were started killed the run")
fixed("T09","84c602a","a thread that cannot be started (-t beyond the system's limit) made the command panic")
fixed("H05","459e56f","interim responses (100 Continue, 103 Early Hints) were taken for the response of the request, and the real one for its body")
fixed("L01","0f04367","statements that wrap the value of a variable once more, repeated some thousand times (in a program, a session or the iterations of a test), exhausted the stack")
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(d,"known_findings.jsonl"),"w").write("".join(json.dumps(o)+"\n" for o in out))
