#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))
W='puck/src/ws/'
p('C01','A WebSocket frame is decoded exactly, and nothing after it is consumed',
 "From any byte stream that begins with a complete masked client frame (or an unmasked frame with an empty payload), decoding yields that frame's final flag, reserved bits, operation kind (0 continuation, 1 text, 2 binary, 8 close, 9 ping, 10 pong, every other code reserved) and its payload unmasked with its own key, for all three length forms. Exactly the bytes of that frame are consumed, whatever follows it and however the transport splits its reads. A frame which is cut short, a non-empty frame without a mask, or a failing transport gives an error and never a frame.",
 ['inputs','fault_sequences'],'every byte stream, every frame header and payload length, every way the transport chunks or fails its reads',
 'the one existing test decodes two empty two-byte frames; it samples no payload, mask, extended length, trailing data, split read or truncation',
 [W+'frame.rs'],[('Frame::parse','puck/src/ws/frame.rs')],observe=['puck::ws::frame::Frame::parse'])
p('C02','Bytes from a peer never crash a decoder or make it reserve the announced size',
 "Whatever bytes a peer sends, as WebSocket frames and messages, as an HTTP request or as an HTTP response, and however they are split or cut off, decoding them and reading the body ends with a value or an error: it does not panic, overflow or loop without consuming input. Memory is not reserved in proportion to a length the peer merely announces (frame length, Content-Length): only to what it has actually sent.",
 ['inputs','fault_sequences'],'every byte sequence on every decoding entry point, including truncated, oversized and non-UTF-8 input',
 'tests feed a handful of well-formed inputs; absence of panics and of unbounded allocation is a statement about all inputs',
 [W+'frame.rs',W+'message.rs','puck/src/request/mod.rs','puck/src/response/mod.rs','puck/src/body/mod.rs'],
 [('bounded reading of the payload','puck/src/ws/frame.rs'),('head reading loop','puck/src/request/mod.rs'),('Read for Body','puck/src/body/mod.rs')],
 observe=['Frame::parse','Message::next','Request::parse','Response::parse','Body::into_bytes','Body::into_string'])
p('C03','Outgoing WebSocket messages are written as one exact server frame',
 "Sending a message writes exactly one final, unmasked frame: first byte final bit plus the code of the message kind with all reserved bits clear, then the payload length in the shortest of the 7, 16 (big-endian, up to 65535) and 64 bit forms, then the payload bytes unchanged, and nothing else. A ping or pong without payload is written with length zero. If the transport refuses a write, the send reports an error.",
 ['inputs','fault_sequences'],'every message kind, payload and payload length, every write fault',
 'no test encodes a frame at all; the boundaries 125/126 and 65535/65536 and the fault cases are never reached',
 [W+'frame.rs',W+'send.rs',W+'websocket.rs'],[('Frame::format, Frame::format_length','puck/src/ws/frame.rs'),('send, send_frame','puck/src/ws/send.rs'),('From<Message> for Frame','puck/src/ws/frame.rs')],
 observe=['WebSocket::send','WebSocket::send_to_stream'])
p('C04','A WebSocket message is the exact in-order join of its fragments',
 "Reading the next message returns, for any sequence of frames on the stream, the in-order concatenation of the payloads of one frame with the final bit, or of a non-final first frame and its continuations up to the first final one, with the kind of the first frame; a text message is returned only if the whole payload is valid UTF-8, and an empty ping or pong carries no payload. A close frame at any position gives 'peer closed'; a stray continuation, a reserved kind, or any non-continuation frame inside a fragmented message gives a protocol violation. After a message exactly its frames have been consumed, so the following message is read intact.",
 ['inputs','histories'],'every sequence of frames, number of fragments, kinds and payloads, and every sequence of messages on one connection',
 'no test reads a message; the number of fragments and the order of frame kinds are unbounded',
 [W+'message.rs',W+'frame.rs'],[('Message::next','puck/src/ws/message.rs')],observe=['puck::ws::message::Message::next'])
p('C05','A WebSocket session answers every ping once and closes exactly once',
 "Over any history of received frames, an open session writes exactly one pong, carrying the ping's payload, for each ping message and writes nothing for any other message. On receiving a close frame it writes exactly one empty close frame and reports 'closed', and from then on every read reports 'closed' without reading or writing anything; a protocol violation is reported as a client error and writes nothing. Closing the session from this side writes one empty close frame if it is still open and none if the peer already closed it; a copy of a session is open or closed as the session was.",
 ['histories','inputs'],'every history of messages, closes and violations on a connection, and every number of reads after it',
 'no test runs a session; the property is about the whole history of one connection',
 [W+'websocket.rs',W+'message.rs',W+'send.rs'],[('Iterator for WebSocket','puck/src/ws/websocket.rs'),('WebSocket::close, send_close_frame','puck/src/ws/websocket.rs')],
 state=[dict(name='WebSocket.state',meaning='whether the peer has closed the connection',where='puck/src/ws/websocket.rs')],
 observe=['WebSocket::next','WebSocket::close'])
p('C06','WebSocket upgrades are accepted and answered per the handshake rules',
 "A request is upgraded exactly if it has an Upgrade header equal to 'websocket', a Connection header containing 'upgrade' and a Sec-WebSocket-Key header, with header names and these values compared without regard to case. A successful upgrade writes one 101 response with Upgrade, Connection and the accept value base64(SHA-1(key followed by the protocol GUID)), and nothing else; any other request gets exactly one 400 response and no session.",
 ['inputs'],'every set of request headers, spelling of names and values, and key',
 'one test computes one accept value; the header conditions, the response and the rejections are not tested',
 [W+'upgrade.rs','puck/src/core/mod.rs'],[('should_upgrade, perform_upgrade, compute_accept_header, find_header','puck/src/ws/upgrade.rs'),('Stream::upgrade','puck/src/core/mod.rs')],
 observe=['puck::core::Stream::upgrade','puck::ws::should_upgrade','puck::ws::perform_upgrade'])
p('C07','A response is written as its exact wire form',
 "Writing a response produces exactly 'HTTP/1.1 <status> <reason>' CRLF, then one line '<name>: <value>' CRLF for each header in ascending byte order of the names, then an empty line, then every byte of the body up to the body's length, and nothing else. If the transport refuses a write, an error is reported.",
 ['inputs','fault_sequences'],'every status, reason, header map (and its hash order), body size and length, and write fault',
 'no test encodes a response; header maps iterate in random order and body sizes are unbounded',
 ['puck/src/response/encoder.rs','puck/src/lib.rs','puck/src/core/mod.rs'],[('Encoder::write_tcp_stream','puck/src/response/encoder.rs'),('write_response, err_400, err_404','puck/src/lib.rs'),('Stream::respond','puck/src/core/mod.rs')],
 observe=['Encoder::write_tcp_stream','Stream::respond','write_response'])
p('C08','A body yields exactly its declared bytes, in order, then ends',
 "Reading a body, in any sequence of read calls with any buffer sizes, or whole as bytes or as text, yields exactly the first N bytes of its source in order, where N is the declared length (or everything if none is declared or the source is shorter), and then reports end of data on every later read. It never consumes more than N bytes from its source, and bodies made from a string hold exactly that string's bytes and its length.",
 ['inputs','histories'],'every source, declared length, chunking of the source, and sequence of buffer sizes',
 'no test reads a body in parts or with a length differing from its source',
 ['puck/src/body/mod.rs'],[('Read for Body','puck/src/body/mod.rs'),('Body::into_bytes, into_string, from_reader, from_string, empty','puck/src/body/mod.rs')],
 state=[dict(name='Body.bytes_read',meaning='how many bytes of the declared length have been handed out',where='puck/src/body/mod.rs')],
 observe=['Read for Body','Body::into_bytes','Body::into_string'])
p('C09','Requests are parsed into exactly what the head says',
 "A well-formed request head (at most 20 headers) followed by a body is parsed into its method (GET, POST and HEAD recognised in any case, any other kept as written), its headers with values unchanged (a repeated name keeps its last value), the URL formed from an absolute target as is, or from the Host header plus an origin-form target with its query, and a body of exactly Content-Length bytes (header names compared without regard to case). An empty or cut-off head gives 'no request'; a malformed head, a missing Host, an unusable target or a non-UTF-8 header value gives an error and never a request. How the transport splits its reads makes no difference.",
 ['inputs'],'every request head, header set and order, target form, body, and split of the input',
 'the two regression tests parse two fixed byte strings; nothing checks the parsed fields in general',
 ['puck/src/request/mod.rs'],[('Request::parse','puck/src/request/mod.rs'),('Method::new_from_str','puck/src/request/mod.rs')],observe=['Request::parse'])
p('C10','A written request carries its whole content and parses back to itself',
 "Writing a request produces exactly '<METHOD> <path>[?<query>] HTTP/1.1' CRLF, one '<name>: <value>' CRLF line per header (each header exactly once), an empty line and the body's bytes, and empties the body. Parsing that output gives back the same method, path, query and headers, and with a Content-Length header the same body. If the writer refuses a write, an error is reported.",
 ['inputs','fault_sequences'],'every method, URL, header map and body, and every write fault',
 'no test writes a request',
 ['puck/src/request/mod.rs'],[('Request::write','puck/src/request/mod.rs'),('Method::write','puck/src/request/mod.rs')],observe=['Request::write','Request::parse'])
p('C11','Responses are parsed into exactly what the head says',
 "A well-formed response head (at most 20 headers) followed by a body is parsed into its status, reason and headers with values unchanged (a repeated name keeps its last value), and a body of exactly Content-Length bytes (name compared without regard to case; everything that follows if it is absent). An empty or cut-off head gives 'no response'; a malformed head or a non-UTF-8 header value gives an error and never a response. How the transport splits its reads makes no difference, and a response written by this library parses back to itself.",
 ['inputs'],'every response head, header set, body, and split of the input',
 'no test parses a response',
 ['puck/src/response/mod.rs'],[('Response::parse','puck/src/response/mod.rs')],observe=['Response::parse'])
p('C12','A router runs exactly the first matching route, once',
 "For every list of routes and every request, the router asks the routes' matchers in the order they were added, stops at the first one that accepts, and runs that route's handler exactly once with that request, connection and state; no other handler runs, and none if no matcher accepts. Serving connections through the router gives the same result: the routes arrive unchanged and in order in the process that serves the connection.",
 ['inputs','programs'],'every number and order of routes, every combination of matchers accepting or rejecting',
 'no test builds a router',
 ['puck/src/core/router/mod.rs','puck/src/core/mod.rs'],[('Router::respond, route, as_ints, from_ints','puck/src/core/router/mod.rs'),('Core::serve_router','puck/src/core/mod.rs')],observe=['Router::run','Core::serve_router'])
p('C13','A path pattern matches exactly the paths of its shape',
 "A pattern matches a URL exactly if the URL has a segmented path with the same number of segments as the pattern and each segment fits: a fixed segment equals the text byte for byte, a wildcard fits anything (also the empty segment), and an integer segment fits exactly the decimal texts that denote a 32-bit signed integer (an optional sign, then digits). URLs without a segmented path match no pattern.",
 ['inputs'],'every pattern, of any length and kinds of segment, and every URL',
 'one test matches one pattern against two URLs',
 ['puck/src/core/router/match_url.rs'],[('Match::does_match, Match::at','puck/src/core/router/match_url.rs')],observe=['Match::does_match'])
p('C14','Builders produce exactly what was set; body replacement keeps the rest',
 "A built request or response has exactly the headers that were set (the last value wins for a repeated name), the last method, status, reason and body set, and the defaults otherwise (status 200, empty reason, empty body); building a request without a method is an error and an invalid URL is rejected. Replacing or taking the body hands back exactly the previous body, installs the new one (an empty one when taking), sets the Content-Type header to the new body's type, and changes no other header or field.",
 ['inputs','histories'],'every sequence of builder calls and replacements',
 'no test uses a builder',
 ['puck/src/request/builder.rs','puck/src/response/builder.rs','puck/src/request/mod.rs','puck/src/response/mod.rs'],
 [('RequestBuilder','puck/src/request/builder.rs'),('ResponseBuilder','puck/src/response/builder.rs'),('replace_body, take_body','puck/src/request/mod.rs')],observe=['Request::build','Response::build','replace_body','take_body'])
p('C15','MIME types are serialised per the WHATWG algorithm',
 "A MIME type is written as its essence, then ';charset=utf-8' if it is UTF-8, then for each parameter in order ';name=' followed by the value as is if it is non-empty and consists only of HTTP token characters, and otherwise by the value in double quotes with every double quote and backslash preceded by a backslash and every other character unchanged.",
 ['inputs'],'every essence, parameter list and parameter value',
 'no test formats a MIME type',
 ['puck/src/body/mime.rs'],[('format, EscapeMimeValue, is_http_token_code_point','puck/src/body/mime.rs')],observe=['Display for Mime'])
D='puck_liveview/src/dom/element/'
p('C16','Applying a DOM change list to the old tree yields the new tree',
 "For any two element trees without keys, where nodes kept in the same position keep their identifier and added nodes have identifiers not used in either position, following the produced change list in order on the old tree yields exactly the new tree: names, attributes, text, listeners, order of children and nesting. Comparing a tree with itself produces no changes.",
 ['inputs'],'every pair of such trees, of any depth and width',
 'liveview tests need features and dependencies that are not built here, and each compares one fixed pair of trees',
 [D+'diff/mod.rs',D+'diff/changeset/apply.rs',D+'diff/changeset/mod.rs'],[('Element::diff and diff_*','puck_liveview/src/dom/element/diff/mod.rs'),('Changeset::apply','puck_liveview/src/dom/element/diff/changeset/apply.rs')],observe=['Element::diff','Changeset::apply'])
p('C17','The first paint builds every element once, in order, under its parent',
 "With no previous tree, the change list creates every element of the tree exactly once, in document order, each with its tag name, under its own parent (none for the root), and sets exactly its attributes, listeners and text after creating it and before creating its children; it contains nothing else.",
 ['inputs'],'every element tree',
 'one test lists the instructions of one small tree, and it is not built here',
 [D+'diff/mod.rs'],[('Element::create_from_scratch, generate_listeners','puck_liveview/src/dom/element/diff/mod.rs')],observe=['Element::diff'])
p('C18','Change instructions are serialised in the exact form the client reads',
 "A change list is serialised as a JSON array with one object per instruction in order, each with 'el' the element's identifier, 'ty' the instruction's name in the client protocol, and 'payload' exactly its argument, or its two arguments joined by '+' (attribute name and value, tag name and parent, listener and event); instructions without argument carry no payload. Every text is carried unchanged.",
 ['inputs'],'every instruction and every text in it',
 'no built test serialises instructions',
 [D+'diff/changeset/instruction_serializer.rs'],[('InstructionSerializer, OpSerializer','puck_liveview/src/dom/element/diff/changeset/instruction_serializer.rs')],observe=['messages sent by a live component'])
p('C19','Elements built from HTML get unique ids and keep their content',
 "Converting an HTML tree into elements gives every element a different identifier, numbered in document order from the generator's next number, and leaves the generator after the last one used. Tag names, attributes, text, listeners and the order and nesting of children are those of the HTML tree, for the nodes that can have them.",
 ['inputs'],'every HTML tree and generator state',
 'the snapshot tests convert a few fixed trees and are not built here',
 ['puck_liveview/src/html/mod.rs','puck_liveview/src/html/id.rs'],[('WrappedBodyNode::into_element','puck_liveview/src/html/mod.rs'),('IdGen::new_id','puck_liveview/src/html/id.rs')],
 state=[dict(name='IdGen.head',meaning='next identifier to hand out',where='puck_liveview/src/html/id.rs')],observe=['into_element'])
p('C20','The list server stores every item in order and returns the last n',
 "Over any history of requests, adding an item appends it unchanged, asking for all items returns every added item in order, and asking for the last n returns exactly the last min(n, count) items in order; queries change nothing. Over HTTP, a submitted 'message=<text>' adds that text exactly once, reading n shows the last n, a body without that form, a body that is not text or a negative number gets 400, an unknown path gets 404, and no request makes the handler panic.",
 ['histories','inputs'],'every history of adds and queries, every n, every request body and path',
 'the example has no tests',
 ['examples/list/src/main.rs'],[('ProcessRequest for List','examples/list/src/main.rs'),('routes of main','examples/list/src/main.rs')],
 state=[dict(name='List.items',meaning='the stored items',where='examples/list/src/main.rs')],observe=['list server over HTTP'])
p('C21','Chat user ids: two users present at once never share an id',
 "Over any history of allocations and releases of user ids, an allocated id is different from every id currently in use, a released id that was in use becomes available again, and releasing an id that is not in use (also twice) changes nothing. No id is ever lost: a new number is used only when no released one is available.",
 ['histories'],'every sequence of allocations and releases, including repeated and unknown releases',
 'the example has no tests; the property quantifies over histories',
 ['examples/chat/src/main.rs'],[('UserIdCreator','examples/chat/src/main.rs')],
 state=[dict(name='UserIdCreator.in_use, recycle, head',meaning='ids in use, released ids, next new id',where='examples/chat/src/main.rs')],observe=['ids given to registered users'])
p('C22','The chat server delivers each message once to every other user',
 "Over any history of requests, registering adds a user under a fresh id with the given name and answers with both; renaming a present user changes only that user's name; a message is delivered exactly once, with the sender's id, current name and the text, to every other registered user and to nobody else, and is returned to the sender; removing a user removes exactly that user and frees its id.",
 ['histories'],'every history of registrations, renames, messages and removals, and every number of users',
 'the example has no tests',
 ['examples/chat/src/main.rs'],[('ProcessRequest for ChatServerState','examples/chat/src/main.rs')],
 state=[dict(name='ChatServerState.users',meaning='registered users, their names and processes',where='examples/chat/src/main.rs')],observe=['chat server requests and the messages it sends'])
p('C23','A malformed connection gets a 400 and reaches no handler',
 "When a connection's bytes are not a well-formed request (malformed, empty or cut off), the server loops do not panic and run no matcher or handler; the router server and the per-request function server write exactly one 400 response. A well-formed request on any connection is handled exactly once, whatever other connections sent before it; neither a malformed connection nor an accept that fails ends the loop, which never returns.",
 ['inputs','histories'],'every byte string on a connection and every sequence of connections',
 'no test accepts a connection',
 ['puck/src/core/mod.rs','puck/src/core/router/mod.rs'],[('Core::serve_router, Core::for_each','puck/src/core/mod.rs'),('Router::run','puck/src/core/router/mod.rs')],observe=['Core::serve_router','Core::for_each','Router::run'])
p('C24','Interleaved processes of a live component never lose or reorder updates',
 "For every interleaving of the reader process, the forwarding process and the component's process, the component sees every browser event and every server input exactly once, each source's in the order sent, and each update is painted before the next one is handled.",
 ['schedules'],'every interleaving of the three processes of a live component',
 'no test runs a live component; schedules cannot be enumerated by the unit tests',
 ['puck_liveview/src/component/mod.rs'],[('manage, main_loop','puck_liveview/src/component/mod.rs')],observe=['messages sent to the browser'])
p('C25','The browser client reproduces the server-side tree',
 "Following a serialised change list, the browser's script leaves the page showing exactly the server's tree, for every change list the server can produce.",
 ['inputs','programs'],'every change list and every text in it',
 'no test runs the client script',
 ['puck_liveview/client/index.js'],[('onmessage handler','puck_liveview/client/index.js')],observe=['the page'])
p('C26','A live component answers each event once and sends each view change once',
 "A live component is first told which process it is, is made once with its start data, and sends the client the changes that paint its whole first view. From then on every message is handled in the order it arrives: a text message from the client that names a listener of the view the client was last sent (and, for an input listener, carries a value), and every input from another process, updates the component exactly once, with the input that listener gives or the input as it was sent, and is followed by exactly one text message to the client, the serialised changes from the previous view to the new one. Anything else the client sends (malformed text, unknown listeners, an input event without a value, binary, ping and pong messages) updates nothing and sends nothing. Once the connection is closed or broken, reading stops, the component is dropped and nothing more is sent. The reader passes on every message it reads, in order, and the process that others send inputs to passes on every one of them, in order, after the component was told who it is.",
 ['histories','inputs'],'every history of client messages and inputs, every component, every set of listeners',
 'no test runs a live component, and the liveview crate is not built here; the property is about whole histories',
 ['puck_liveview/src/component/mod.rs'],
 [('main_loop','puck_liveview/src/component/mod.rs'),('perform_diff','puck_liveview/src/component/mod.rs'),('manage','puck_liveview/src/component/mod.rs')],
 state=[dict(name='old_dom, old_listeners',meaning='the view the client was last sent and its listeners',where='puck_liveview/src/component/mod.rs')],
 observe=['inputs the component is updated with','messages sent to the browser'])
p('C27','An element rendered as HTML reads back as that element',
 "Rendering an element gives one HTML element: a start tag with the element's name and every one of its attributes, once, as name=\"value\" with the value in double quotes, then its text, then its children rendered in order, then the end tag of the same name. Characters of texts and attribute values that have a meaning in HTML are written as character references, so whatever characters they hold, an HTML parser reads back exactly the names, attributes, texts, order and nesting of the element, and no text or value can start or end a tag. Listeners, keys and ids are not part of the HTML. (For ordinary elements, with names that HTML allows.)",
 ['inputs'],'every element tree, every text and attribute value',
 'the one test renders a fixed tree without attributes, and is not built here',
 ['puck_liveview/src/dom/element/render.rs'],[('Element::render','puck_liveview/src/dom/element/render.rs'),('Element::write_attributes','puck_liveview/src/dom/element/render.rs')],
 observe=['Element::render'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
