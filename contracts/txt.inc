// ---------------------------------------------------------------- trusted: text functions of std
// printed in another way than `{}` (`{:?}`, `{:>8}` ..): some text
#[verifier::external_body]
pub fn fmt_other<T: ?Sized>(s: &mut String, x: &T) ensures exists|t: Seq<char>| final(s)@ == #[trigger] (old(s)@ + t) { unimplemented!() }
#[verifier::external_body]
pub fn fmt_lit(s: &mut String, l: &str) ensures final(s)@ == old(s)@ + l@ { unimplemented!() }
#[verifier::external_body]
pub fn fmt_arg<T: Disp>(s: &mut String, x: &T) ensures final(s)@ == old(s)@ + x.text() { unimplemented!() }
// `v` is the value of a header called `name` (in any case); None if there is none
pub open spec fn picks(m: HMap, name: Seq<char>, v: Option<Seq<char>>) -> bool {
    match v {
        Some(x) => exists|k: Seq<char>| #[trigger] m.contains_key(k) && lower(k) == lower(name) && m[k] == x,
        None => forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> lower(k) != lower(name),
    }
}
pub open spec fn found_val(f: Option<(&String, &String)>) -> Option<Seq<char>> { match f { Some(x) => Some(x.1@), None => None } }
// names may be written in any case in the code
pub proof fn lemma_cases()
    ensures
        lower("Host"@) == lower("host"@),
        lower("HOST"@) == lower("host"@),
        lower("CONNECT"@) == lower("connect"@),
        lower("Connect"@) == lower("connect"@),
        lower("Content-Length"@) == lower("content-length"@),
        lower("CONTENT-LENGTH"@) == lower("content-length"@),
        lower("Content-length"@) == lower("content-length"@),
        lower("connect"@) == "connect"@,
        "connect"@ != "get"@, "connect"@ != "post"@, "connect"@ != "head"@,
{
    reveal_strlit("get"); reveal_strlit("post"); reveal_strlit("head"); reveal_strlit("connect");
    assert("connect"@.len() == 7 && "get"@.len() == 3 && "post"@.len() == 4 && "head"@.len() == 4);
    assert(lower("connect"@) =~= "connect"@);
    reveal_strlit("host");
    reveal_strlit("Host");
    reveal_strlit("HOST");
    reveal_strlit("connect");
    reveal_strlit("CONNECT");
    reveal_strlit("Connect");
    reveal_strlit("content-length");
    reveal_strlit("Content-Length");
    reveal_strlit("CONTENT-LENGTH");
    reveal_strlit("Content-length");
    assert(lower("Host"@) =~= lower("host"@));
    assert(lower("HOST"@) =~= lower("host"@));
    assert(lower("CONNECT"@) =~= lower("connect"@));
    assert(lower("Connect"@) =~= lower("connect"@));
    assert(lower("Content-Length"@) =~= lower("content-length"@));
    assert(lower("CONTENT-LENGTH"@) =~= lower("content-length"@));
    assert(lower("Content-length"@) =~= lower("content-length"@));
}
pub proof fn lemma_upgrade_cases()
    ensures
        lower("upgrade"@) == lower("Upgrade"@),
        lower("UPGRADE"@) == lower("Upgrade"@),
        lower("connection"@) == lower("Connection"@),
        lower("CONNECTION"@) == lower("Connection"@),
        lower("sec-websocket-key"@) == lower("Sec-WebSocket-Key"@),
        lower("Sec-Websocket-Key"@) == lower("Sec-WebSocket-Key"@),
        lower("SEC-WEBSOCKET-KEY"@) == lower("Sec-WebSocket-Key"@),
        lower("WebSocket"@) == lower("websocket"@),
        lower("Websocket"@) == lower("websocket"@),
        lower("WEBSOCKET"@) == lower("websocket"@),
        forall|m: HMap, v: Option<Seq<char>>| #[trigger] picks(m, "upgrade"@, v) == picks(m, "Upgrade"@, v),
        forall|m: HMap, v: Option<Seq<char>>| #[trigger] picks(m, "UPGRADE"@, v) == picks(m, "Upgrade"@, v),
        forall|m: HMap, v: Option<Seq<char>>| #[trigger] picks(m, "connection"@, v) == picks(m, "Connection"@, v),
        forall|m: HMap, v: Option<Seq<char>>| #[trigger] picks(m, "CONNECTION"@, v) == picks(m, "Connection"@, v),
        forall|m: HMap, v: Option<Seq<char>>| #[trigger] picks(m, "sec-websocket-key"@, v) == picks(m, "Sec-WebSocket-Key"@, v),
        forall|m: HMap, v: Option<Seq<char>>| #[trigger] picks(m, "Sec-Websocket-Key"@, v) == picks(m, "Sec-WebSocket-Key"@, v),
        forall|m: HMap, v: Option<Seq<char>>| #[trigger] picks(m, "SEC-WEBSOCKET-KEY"@, v) == picks(m, "Sec-WebSocket-Key"@, v),
{
    reveal_strlit("Upgrade");
    reveal_strlit("upgrade");
    reveal_strlit("UPGRADE");
    reveal_strlit("Connection");
    reveal_strlit("connection");
    reveal_strlit("CONNECTION");
    reveal_strlit("Sec-WebSocket-Key");
    reveal_strlit("sec-websocket-key");
    reveal_strlit("Sec-Websocket-Key");
    reveal_strlit("SEC-WEBSOCKET-KEY");
    reveal_strlit("websocket");
    reveal_strlit("WebSocket");
    reveal_strlit("Websocket");
    reveal_strlit("WEBSOCKET");
    assert(lower("upgrade"@) =~= lower("Upgrade"@));
    assert(lower("UPGRADE"@) =~= lower("Upgrade"@));
    assert(lower("connection"@) =~= lower("Connection"@));
    assert(lower("CONNECTION"@) =~= lower("Connection"@));
    assert(lower("sec-websocket-key"@) =~= lower("Sec-WebSocket-Key"@));
    assert(lower("Sec-Websocket-Key"@) =~= lower("Sec-WebSocket-Key"@));
    assert(lower("SEC-WEBSOCKET-KEY"@) =~= lower("Sec-WebSocket-Key"@));
    assert(lower("WebSocket"@) =~= lower("websocket"@));
    assert(lower("Websocket"@) =~= lower("websocket"@));
    assert(lower("WEBSOCKET"@) =~= lower("websocket"@));
    assert forall|m: HMap, v: Option<Seq<char>>| #[trigger] picks(m, "upgrade"@, v) == picks(m, "Upgrade"@, v) by { lemma_picks_name(m, "upgrade"@, "Upgrade"@, v); }
    assert forall|m: HMap, v: Option<Seq<char>>| #[trigger] picks(m, "UPGRADE"@, v) == picks(m, "Upgrade"@, v) by { lemma_picks_name(m, "UPGRADE"@, "Upgrade"@, v); }
    assert forall|m: HMap, v: Option<Seq<char>>| #[trigger] picks(m, "connection"@, v) == picks(m, "Connection"@, v) by { lemma_picks_name(m, "connection"@, "Connection"@, v); }
    assert forall|m: HMap, v: Option<Seq<char>>| #[trigger] picks(m, "CONNECTION"@, v) == picks(m, "Connection"@, v) by { lemma_picks_name(m, "CONNECTION"@, "Connection"@, v); }
    assert forall|m: HMap, v: Option<Seq<char>>| #[trigger] picks(m, "sec-websocket-key"@, v) == picks(m, "Sec-WebSocket-Key"@, v) by { lemma_picks_name(m, "sec-websocket-key"@, "Sec-WebSocket-Key"@, v); }
    assert forall|m: HMap, v: Option<Seq<char>>| #[trigger] picks(m, "Sec-Websocket-Key"@, v) == picks(m, "Sec-WebSocket-Key"@, v) by { lemma_picks_name(m, "Sec-Websocket-Key"@, "Sec-WebSocket-Key"@, v); }
    assert forall|m: HMap, v: Option<Seq<char>>| #[trigger] picks(m, "SEC-WEBSOCKET-KEY"@, v) == picks(m, "Sec-WebSocket-Key"@, v) by { lemma_picks_name(m, "SEC-WEBSOCKET-KEY"@, "Sec-WebSocket-Key"@, v); }
}
pub proof fn lemma_picks_name(m: HMap, a: Seq<char>, b: Seq<char>, v: Option<Seq<char>>)
    requires lower(a) == lower(b),
    ensures picks(m, a, v) == picks(m, b, v)
{
}
