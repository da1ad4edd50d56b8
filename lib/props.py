"""Which units and test crate decide which property."""
UNITS = {"ws": "ws.vt", "body": "body.vt", "write": "write.vt", "parse": "parse.vt", "build": "build.vt", "upgrade": "upgrade.vt", "router": "router.vt", "route": "route.vt", "mime": "mime.vt",
         "live": "live.vt", "serial": "serial.vt", "html": "html.vt", "render": "render.vt",
         "component": "component.vt", "round": "round.vt", "chat": "chat.vt", "list": "list.vt"}
CRATES = {"puckx": {"clean": ["puck", "puckx"]}, "mimex": {"clean": ["mimex"]}, "livex": {"clean": ["livex"]}, "appx": {"clean": ["puck", "appx"]}}
IO = "puck's stream types (lunatic TcpStream) deliver and accept bytes in order; reads and writes may fail at any point"
V = "Verus discharges every obligation of the functions below, extracted from /repo on this run, for all inputs; "
PROPS = {
    "C01": {"units": ["ws"], "crate": "puckx", "functions": ["Frame::parse"], "assumptions": [IO],
            "note": V + "Frame::parse returns exactly the frame of the byte stream and consumes exactly its bytes. Trusted: std's Read (read_exact, take, read_to_end), slice and Vec operations as listed in the evidence."},
    "C03": {"units": ["ws"], "crate": "puckx", "functions": ["Frame::format", "send", "send_frame"], "assumptions": [IO],
            "note": V + "Frame::format, send and send_frame write exactly one server frame. Trusted: std's Write (write_all)."},
    "C04": {"units": ["ws"], "crate": "puckx", "functions": ["Message::next"], "assumptions": [IO],
            "note": V + "Message::next against a specification function over the received bytes, with a loop invariant over any number of fragments. Trusted: String::from_utf8 and std's Read."},
    "C05": {"units": ["ws"], "crate": "puckx", "functions": ["<Iterator for WebSocket>::next", "WebSocket::new", "WebSocket::make_copy", "WebSocket::close", "send_close_frame"],
            "assumptions": [IO, "the transport accepts the pong and close frames (otherwise the code panics by design)"],
            "note": V + "WebSocket::next and close per call, and over whole histories by induction over the contract of next. Assumes that writing pong and close frames succeeds (the code panics otherwise)."},
    "C02": {"units": ["ws", "body", "parse"], "crate": "puckx",
            "functions": ["Frame::parse", "Message::next", "<Iterator for WebSocket>::next", "Request::parse", "Response::parse", "<Read for Body>::read", "Body::into_bytes", "Body::into_string"],
            "assumptions": [IO, "httparse, url and std do not panic (WHATWG URL parsing and HTTP head parsing are dependencies)"],
            "note": V + "every decoder is free of panics, overflow and out-of-bounds access, its loops terminate, and it asks for no more memory up front than alloc_limit. Trusted: httparse, url, std as listed in the evidence."},
    "C07": {"units": ["write"], "crate": "puckx", "functions": ["Encoder::write_tcp_stream", "write_response", "err_404", "err_400", "Stream::respond"], "assumptions": [IO],
            "note": V + "what Encoder::write_tcp_stream and its callers write. Trusted: std's Write, formatting of literals and Display arguments, HashMap iteration (each entry once, any order), sort_unstable_by with the order of the names."},
    "C08": {"units": ["body"], "crate": "puckx", "functions": ["<Read for Body>::read", "Body::into_bytes", "Body::into_string", "Body::from_reader", "Body::from_string"], "assumptions": [IO],
            "note": V + "each read against the declared length, and over any history of reads by induction over that contract. Trusted: the source's own Read (delivers a prefix of what remains, or an error)."},
    "C09": {"units": ["parse", "round"], "crate": "puckx", "functions": ["Request::parse", "Method::new_from_str", "Request::headers", "Request::method", "Request::url"], "assumptions": [IO, "httparse takes well-formed heads as RFC 9112 reads them (axiom_httparse_request); malformed heads and url's results are taken as they are"],
            "note": V + "Request::parse finds the head, and makes the request of exactly what httparse and url say about it; the lemma well_formed_request_is_parsed takes this to heads in the grammar's terms. Trusted: httparse, url, BufReader::read_until, number parsing."},
    "C10": {"units": ["write", "round"], "crate": "puckx", "functions": ["Request::write", "Method::write"], "assumptions": [IO, "Request::parse keeps its contract (C09)", "httparse takes well-formed heads as RFC 9112 reads them (axiom_httparse_request)", "a URL's path and query are taken back as they are behind any host (axiom_url_again)", "a u16 prints as its decimal digits"],
            "note": V + "the exact bytes Request::write writes and that the body is empty afterwards; the lemma request_round_trip shows from these bytes and the contract of Request::parse that the request comes back. Trusted: what httparse and url say about well-formed texts (three axioms), HashMap iteration."},
    "C11": {"units": ["parse", "round"], "crate": "puckx", "functions": ["Response::parse", "Response::headers", "Response::status", "Response::reason"], "assumptions": [IO, "Encoder::write_tcp_stream keeps its contract (C07)", "httparse takes well-formed heads as RFC 9112 reads them (axiom_httparse_response); malformed heads are taken as httparse takes them", "a u16 prints as its decimal digits"],
            "note": V + "Response::parse finds the head and makes the response of exactly what httparse says about it; the lemmas well_formed_response_is_parsed and response_round_trip take this to heads in the grammar's terms and to responses puck wrote. Trusted: httparse on heads (axiom), HashMap iteration."},
    "C06": {"units": ["upgrade"], "crate": "puckx", "functions": ["find_header", "should_upgrade", "perform_upgrade", "compute_accept_header", "Stream::upgrade"],
            "assumptions": [IO, "the transport accepts the answer (otherwise the code panics by design)", "if a header name occurs twice in different case, either may be looked at"],
            "note": V + "the decision, the accept value and the one response written. Trusted: SHA-1 and base64 (uninterpreted), std's text functions, HashMap iteration. Where the key is missing, that Stream::upgrade writes nothing beyond perform_upgrade's 400 is tested only."},
    "C14": {"units": ["build"], "crate": "puckx",
            "functions": ["RequestBuilder::try_new", "RequestBuilder::new", "RequestBuilder::header", "RequestBuilder::headers", "RequestBuilder::body", "RequestBuilder::method", "RequestBuilder::try_build", "RequestBuilder::build",
                          "ResponseBuilder::new", "ResponseBuilder::header", "ResponseBuilder::headers", "ResponseBuilder::body", "ResponseBuilder::status", "ResponseBuilder::build",
                          "Request::replace_body", "Request::take_body", "Response::replace_body", "Response::take_body",
                          "Request::headers", "Request::method", "Request::body", "Request::url", "Response::headers", "Response::status", "Response::reason"],
            "assumptions": ["the derived Default of ResponseBuilder gives empty fields"],
            "note": V + "every builder step and body replacement, each stating the whole resulting value. Trusted: HashMap insert and extend, mem::replace, url parsing, the derived Default of ResponseBuilder."},
    "C12": {"units": ["router"], "crate": "puckx",
            "functions": ["Route::new", "Router::new", "Router::route", "Router::respond", "Router::as_ints", "Router::from_ints", "Core::serve_router", "Core::serve_router#spawn", "Router::run", "Router::run#spawn"],
            "assumptions": ["function pointers of one type at one address are the same function", "lunatic: Process::spawn runs its function once in a new process with the context as given", "the state's Clone gives an equal value"],
            "note": V + "over a ghost log of which matcher was asked, which handler ran, which process was started. Trusted: lunatic's accept and spawn, calls through function pointers."},
    "C13": {"units": ["route"], "crate": "puckx", "functions": ["Match::does_match", "Match::at", "Match::new", "path", "anything", "any_integer"],
            "assumptions": ["the segments of a URL are the parts of its path, after the leading slash, between slashes (url crate)", "the derived Default of Match has no segments"],
            "note": V + "the pattern loop, for patterns and paths of any length. Trusted: Url::path_segments, str::parse::<i32> (an optional sign, then digits, in range)."},
    "C15": {"units": ["mime"], "crate": "mimex",
            "functions": ["format", "HTML", "PLAIN", "BYTE_STREAM", "<Display for Mime>::fmt", "<Display for ParamName>::fmt", "<Display for ParamValue>::fmt", "is_http_token_code_point",
                          "EscapeMimeValue::backslash", "EscapeMimeValue::char", "<Iterator for EscapeMimeValue>::next", "<Iterator for EscapeMimeValue>::size_hint"],
            "assumptions": ["Cow<str> is the text it holds"],
            "note": V + "the serialiser with loops over parameters and characters, and the escaping iterator, whose Iterator laws Verus checks. Trusted: std::fmt's write! of literals and Display arguments, str::chars, String::push."},
    "C16": {"units": ["live"], "crate": "livex",
            "functions": ["Element::diff", "Element::diff_children", "Element::diff_name", "Element::diff_attributes", "Element::diff_text", "Element::diff_listeners", "Element::diff_id", "Element::generate_listeners", "Element::create_from_scratch",
                          "Element::children_are_all_keyed", "Element::locate_child_by_key", "Element::id", "Changeset::empty", "Changeset::from_op", "Changeset::extend", "<IntoIterator for Changeset>::into_iter",
                          "Changeset::apply", "Changeset::find_el_with_id", "Changeset::find_parent_id", "Changeset::parse", "Changeset::try_parse", "Changeset::crudely_remove_cow_lifetime_problems", "ListenerRef::new", "ListenerRef::listener_name", "ListenerRef::js_event"],
            "assumptions": ["Cow<str> is the text it holds", "a usize prints as its decimal digits, and parsing reads them", "no element of either tree has a key (the branch for keyed children is outside this property)"],
            "note": V + "diff and apply against one specification of what following a change list does to a tree, by induction over trees of any size. Trusted: HashMap's operations and iteration (each entry once, any order), derived equality, Vec insert and remove."},
    "C17": {"units": ["live"], "crate": "livex", "functions": ["Element::diff", "Element::create_from_scratch", "Element::generate_listeners", "Element::id", "Changeset::empty", "Changeset::from_op", "Changeset::extend", "<IntoIterator for Changeset>::into_iter", "ListenerRef::listener_name", "ListenerRef::js_event"],
            "assumptions": ["Cow<str> is the text it holds", "a usize prints as its decimal digits, and parsing reads them"],
            "note": V + "the change list of a first paint against a grammar over the tree, by induction over trees of any size; attributes in any order. Trusted: HashMap iteration (each entry once, any order)."},
    "C18": {"units": ["serial"], "crate": "livex", "functions": ["<Serialize for InstructionSerializer>::serialize", "<Serialize for OpSerializer>::serialize"],
            "assumptions": ["serde_json writes the serde data model as JSON: a sequence as an array, a struct as an object of its fields in order, a text as a JSON string"],
            "note": V + "the serialised value of every instruction and of lists of any length. Trusted: serde's data model as serde_json writes it, format! of literals and texts."},
    "C19": {"units": ["html"], "crate": "livex",
            "functions": ["WrappedBodyNode::into_element", "IdGen::new_id", "IdGen::new", "WrappedBodyNode::listener", "WrappedBodyNode::child", "WrappedBodyNode::children", "<IntoWrappedBodyNode for T>::wrap"],
            "assumptions": ["Cow<str> is the text it holds", "malvolio's into_pub_fields gives the node's own fields, and its nodes have the fields of version 0.3.1", "no bare text nodes (the code panics on them by design)", "fewer than usize::MAX elements are made by one generator"],
            "note": V + "the whole element tree made of an HTML tree of any size, its numbering in document order and the generator's state. Trusted: malvolio's node types, Vec::extend, the derived Default of IdGen."},
    "C20": {"units": ["list"], "crate": "appx", "functions": ["<AbstractProcess for List>::init", "<ProcessRequest<Msg> for List>::handle"],
            "assumptions": ["the routes of main, with their closures, are tested only (bounded): requests over an in-memory connection"],
            "note": V + "the list's process: adding, all items, last n, for lists of any length. Trusted: Vec::clone and to_vec give equal texts. The HTTP routes in main are tested only (bounded)."},
    "C21": {"units": ["chat"], "crate": "appx", "functions": ["UserIdCreator::get_id", "UserIdCreator::release_id"],
            "assumptions": ["fewer than 2^64 ids are ever made", "the derived Default starts with no ids and number 0"],
            "note": V + "each allocation and release against an invariant of the id creator, hence every history by induction. Trusted: HashSet's operations."},
    "C22": {"units": ["chat"], "crate": "appx", "functions": ["<ProcessRequest<CoordinatorInput> for ChatServerState>::handle", "UserIdCreator::get_id", "UserIdCreator::release_id"],
            "assumptions": ["only registered users send messages (otherwise the server's process fails by design)", "fewer than 2^64 ids are ever made"],
            "note": V + "every request against the users registered, over a ghost log of what is sent to which process, with a loop over any number of users. Trusted: HashMap's operations and iteration (each entry once, any order), lunatic's Process::send."},
    "C26": {"units": ["component"], "crate": "appx", "functions": ["main_loop", "perform_diff", "manage#spawn0", "manage#spawn2"],
            "assumptions": ["a component's render depends on its state only", "the transport accepts the first message (otherwise the code panics by design)", "lunatic: a process gets its context as it was given, and messages arrive in the order sent"],
            "note": V + "the loop over a ghost log of what was received, which updates were made and what was sent, for histories of any length. Trusted: the user's component and listeners (any code), serde_json's parsing, lunatic's mailboxes and spawn. What the change lists say is C16 to C18."},
    "C27": {"units": ["render"], "crate": "livex", "functions": ["Element::render", "Element::write_opening_tag", "Element::write_closing_tag", "Element::write_attributes", "escape"],
            "assumptions": ["Cow<str> is the text it holds", "tag and attribute names are proper ones (no blanks, quotes, '=', '/' or '>'), in lower case and of ordinary elements (not void or raw text ones); texts have no carriage return and no NUL character"],
            "note": V + "the text rendered for an element tree of any size against a grammar of HTML elements, and a theorem that such a text determines the tag names, attributes, texts and children it was rendered from. Trusted: HashMap iteration (each entry once, any order), `String + &str`."},
    "C23": {"units": ["router"], "crate": "puckx",
            "functions": ["Core::serve_router", "Core::serve_router#spawn", "Core::for_each", "Core::for_each#spawn", "Router::run", "Router::run#spawn", "Stream::respond", "Stream::new", "err_400", "Request::parse"],
            "assumptions": [IO, "lunatic: Process::spawn runs its function once in a new process with the context as given", "handlers and matchers may do anything to their own connection but end"],
            "note": V + "per connection and, by the loop invariant of the accept loops, over every sequence of connections: one process per connection, which answers 400 and runs nothing when Request::parse gives no request. Trusted: lunatic's accept and spawn, calls through function pointers."},
}
NOT_APPLICABLE = {
    "C24": "quantifies over interleavings of lunatic processes and mailboxes; function contracts say nothing about schedules, and no ownership or permission model of lunatic's mailboxes exists for the installed verifiers",
    "C25": "the deciding code is JavaScript running in a browser's DOM; no deductive verifier for JavaScript is installed",
}
