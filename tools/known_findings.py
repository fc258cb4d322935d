import subprocess
log=subprocess.run("git -C /repo log --reverse --format='%h %s' 8d5cde4..HEAD",shell=True,capture_output=True,text=True).stdout.splitlines()
m={
"parse and write the HEAD":("H01","a HEAD request parsed as OtherMethod(\"HEAD\"), and Method::Head was written as GET (H06 too)"),
"write the query":("H06","the query of the URL of a built request was not written"),
"repeat Host or":("H02","requests with two Host or two Content-Length headers were accepted, the last one winning"),
"whose Host is not an authority":("H02","Host: a/b was accepted and changed the path of the request"),
"whose Content-Length is not a number":("H02","Content-Length: x was accepted as a request without a body length"),
"length of a body up front":("H03","into_string allocated the declared length of the body: Content-Length: 9999999999999999 traps"),
"length of a response body":("H05","the length of a response body was taken from a header named Content-Type"),
"reject malformed responses":("H05","malformed responses panicked or were accepted as partial ones"),
"refuse to write line breaks":("H08","line breaks in header values, reasons and methods were written as they are"),
"serve_router":("S02","serve_router panics on a malformed request instead of answering 400"),
"for_each":("S02","for_each panics on a malformed request instead of answering 400"),
"Router::run":("S02","Router::run panics on a malformed request instead of answering 400"),
"without losing bytes":("W02","every frame was read through its own buffered reader: bytes of the next frame, or of one that arrives in pieces, were lost"),
"masking key of empty":("W02","the masking key of an empty masked frame was taken for the next frame"),
"declared length of a WebSocket":("W08","the declared length of a frame was allocated up front: 2^63 panics"),
"65535 bytes":("W04","frames of 65535 bytes were written with the eight byte length"),
"which the protocol does not allow":("W03","reserved bits and op codes, and fragmented or long control frames, were accepted"),
"continue nothing":("W03","a continuation frame without a message was accepted"),
"after the close frame":("W06","messages were sent after the close frame"),
"failures to send WebSocket control":("W07","a failing write of a pong or close frame panicked"),
"after a protocol violation":("W03","after a violation the connection stayed open and read the next frame from the middle of the bad one"),
"headers of a WebSocket upgrade":("W01","upgrade headers were found only in one spelling of their names"),
"client leaves during":("W01","a client that leaves during the upgrade made the handler panic (W07 too)"),
"frames as a whole":("W04","a frame was written in several writes: LiveView, which writes pongs and renderings from two processes, mixed frames up (V04 too)"),
"stop reading from a LiveView":("V04","after a client left, the process that reads from its connection read on for ever, and the component stayed"),
"before the first paint":("V04","a client that leaves before the first paint made the component process panic"),
"tag name and listener updates":("V01","changes of a tag name or listener were addressed to the new id of an element which still has the old one"),
"rename, create and order":("V01","renderings in which ids are swapped, or keyed elements move or appear, were shown wrongly"),
"contain a plus sign":("V01","attribute values and listener names were cut at a plus sign"),
"element whose text changes":("V01","a change of the text of an element removed its children from the page"),
"listeners of other elements":("V02","the removal of a listener by the client script also affected other elements"),
"place keyed elements":("V01","keyed elements appeared at the end of their parent, not in their place"),
"when a form is submitted":("V02","submitting a form left the page"),
"names of select and noscript":("V05","select and noscript became another element"),
"children of headings, labels":("V05","headings, labels and links lost their children"),
"listeners of br and noscript":("V05","br and noscript lost their listeners"),
"combine the values of repeated":("H01","of a header that is repeated, all values but the last were lost (H05, W01 too)"),
"length is no length":("H05","a response whose Content-Length is no number, or is repeated, was accepted, its body read up to the end of the stream"),
"not for the word":("W01","requests whose Connection header contains the word upgrade in another token were upgraded"),
"refuse to send control frames":("W04","pings and pongs of more than 125 bytes were sent, which no peer accepts"),
"head ends before":("H02","a head that ends with bare line feeds was accepted before its blank line arrived (H05 too)"),
}
out=["# known: property=<id> key=<key> | <what fails>        an unrepaired defect of /repo, identified by the key of the failing execution",
"# fixed: property=<id> <commit> <what failed>        a repaired one (suppresses nothing)",
"known: property=H01 key=chunked | the body of a request with Transfer-Encoding: chunked is handed over with its chunk sizes, up to the end of the stream (puck/src/request/mod.rs, Request::parse)",
"known: property=H05 key=chunked | the body of a response with Transfer-Encoding: chunked is handed over with its chunk sizes (puck/src/response/mod.rs, Response::parse)",
"known: property=W02 key=interleaved-control | a ping or pong that arrives between the fragments of a message is refused as a client error, and the message is lost (puck/src/ws/message.rs, Message::next)",
"known: property=A01 key=read-all | /read/n lists all messages when there are more than n (examples/list/src/main.rs, the handler of Msg::LastN)",
"known: property=A01 key=read-not-a-number | /read/x, for an x which is not a number of messages, panics instead of being answered (examples/list/src/main.rs)",
"known: property=A01 key=submit-not-utf8 | a submission which is not UTF-8 panics instead of being answered (examples/list/src/main.rs)",
"known: property=V04 key=one-process-left | the process which forwards what `manage` returns lives for ever, also when its component is gone (puck_liveview/src/component/mod.rs, manage)",
"known: property=V04 key=pong-inside-frame | when the connection takes only a part of what is written, a pong ends up inside a rendering or a rendering inside a pong: two processes write to the connection (puck_liveview/src/component/mod.rs, manage; puck/src/ws/websocket.rs, next)",
"known: property=V05 key=malvolio-children | what is put into a malvolio tag before it is wrapped is lost (puck_liveview/src/html/mod.rs, into_element)",
"known: property=V05 key=text-node | into_element panics for a text node (puck_liveview/src/html/mod.rs, into_element, BodyNode::Text)"]
for l in log:
    h,s=l.split(' ',1)
    k=[v for k,v in m.items() if k in s]
    assert len(k)==1,(l,k)
    out.append(f"fixed: property={k[0][0]} {h} {k[0][1]}")
open('/verif/known-findings.txt','w').write("\n".join(out)+"\n")
