// ---------------------------------------------------------------- trusted: what httparse says about a well-formed head
// One header line as it may be sent: white space is allowed around the value.
pub ghost struct HLine { pub name: Seq<char>, pub pre: Seq<u8>, pub value: Seq<u8>, pub post: Seq<u8> }
pub open spec fn token_c(c: char) -> bool {
    ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '!' || c == '#' || c == '$' || c == '%' || c == '&' || c == '\''
        || c == '*' || c == '+' || c == '-' || c == '.' || c == '^' || c == '_' || c == '`' || c == '|' || c == '~'
}
pub open spec fn token(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> token_c(#[trigger] s[i]) }
pub open spec fn target_c(c: char) -> bool { '!' <= c && c <= '~' }
pub open spec fn target(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> target_c(#[trigger] s[i]) }
pub open spec fn reason_c(c: char) -> bool { c == '\t' || (' ' <= c && c <= '~') }
pub open spec fn reason_ok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> reason_c(#[trigger] s[i]) }
pub open spec fn blank(b: u8) -> bool { b == 32 || b == 9 }
pub open spec fn blanks(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> blank(#[trigger] s[i]) }
pub open spec fn plain_b(b: u8) -> bool { b == 9 || (b >= 32 && b != 127) }
pub open spec fn plain_bytes(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain_b(#[trigger] s[i]) }
pub open spec fn line_ok(l: HLine) -> bool {
    &&& token(l.name)
    &&& blanks(l.pre) && blanks(l.post) && plain_bytes(l.value)
    &&& if l.value.len() == 0 { l.post.len() == 0 } else { !blank(l.value[0]) && !blank(l.value.last()) }
}
pub open spec fn lines_ok(l: Seq<HLine>) -> bool { forall|i: int| 0 <= i < l.len() ==> line_ok(#[trigger] l[i]) }
pub open spec fn line_bytes(l: HLine) -> Seq<u8> { u(l.name) + u(":"@) + l.pre + l.value + l.post + u("\r\n"@) }
pub open spec fn lines_bytes(s: Seq<HLine>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { lines_bytes(s.drop_last()) + line_bytes(s.last()) }
}
pub open spec fn says(l: Seq<HLine>) -> RawList { l.map_values(|l: HLine| (l.name, l.value)) }
pub open spec fn first_line_req(method: Seq<char>, t: Seq<char>, minor: Seq<char>) -> Seq<u8> { u(method) + u(" "@) + u(t) + u(" HTTP/1."@) + u(minor) + u("\r\n"@) }
pub open spec fn first_line_res(minor: Seq<char>, code: u16, reason: Seq<char>) -> Seq<u8> { u("HTTP/1."@) + u(minor) + u(" "@) + dec(code) + u(" "@) + u(reason) + u("\r\n"@) }
pub open spec fn minor_ok(minor: Seq<char>) -> bool { minor == "0"@ || minor == "1"@ }
pub axiom fn axiom_httparse_request(method: Seq<char>, t: Seq<char>, minor: Seq<char>, l: Seq<HLine>, slots: int)
    requires token(method), target(t), minor_ok(minor), lines_ok(l), l.len() <= slots
    ensures hp_req(first_line_req(method, t, minor) + lines_bytes(l) + u("\r\n"@), slots)
        == Ok::<ReqHead, HpError>(ReqHead { method: Some(method), path: Some(t), headers: says(l) });
pub axiom fn axiom_httparse_response(minor: Seq<char>, code: u16, reason: Seq<char>, l: Seq<HLine>, slots: int)
    requires 100 <= code <= 999, reason_ok(reason), minor_ok(minor), lines_ok(l), l.len() <= slots
    ensures hp_res(first_line_res(minor, code, reason) + lines_bytes(l) + u("\r\n"@), slots)
        == Ok::<ResHead, HpError>(ResHead { code: Some(code), reason: Some(reason), headers: says(l) });
// trusted: the url crate.  `web(v)`: the URL of a Url made from an http or https text.  Such a path and
// query are taken back as they are behind any host which the crate takes.
pub uninterp spec fn web(v: UrlV) -> bool;
pub uninterp spec fn host_ok(host: Seq<char>) -> bool;
pub open spec fn target_of(v: UrlV) -> Seq<char> { v.path + (if v.query is Some { "?"@ + v.query->Some_0 } else { Seq::empty() }) }
pub axiom fn axiom_url_again(v: UrlV, host: Seq<char>)
    requires web(v), host_ok(host)
    ensures
        starts(v.path, seq!['/']), target(target_of(v)),
        url_parse("http://"@ + host + target_of(v)) is Some,
        url_parse("http://"@ + host + target_of(v))->Some_0.path == v.path,
        url_parse("http://"@ + host + target_of(v))->Some_0.query == v.query;

// ---------------------------------------------------------------- bytes of texts
pub proof fn lemma_scalar_high(c: u32)
    requires is_scalar(c), c >= 0x80
    ensures forall|i: int| 0 <= i < encode_scalar(c).len() ==> encode_scalar(c)[i] >= 0x80
{
    assert(forall|x: u8| (0xC0u8 | x) >= 0x80) by (bit_vector);
    assert(forall|x: u8| (0xE0u8 | x) >= 0x80) by (bit_vector);
    assert(forall|x: u8| (0xF0u8 | x) >= 0x80) by (bit_vector);
    assert(forall|x: u8| (0x80u8 | x) >= 0x80) by (bit_vector);
}
pub proof fn lemma_char_bytes(c: char)
    ensures
        (c as u32) < 0x80 ==> u(seq![c]) == seq![c as u8],
        (c as u32) >= 0x80 ==> forall|i: int| 0 <= i < u(seq![c]).len() ==> #[trigger] u(seq![c])[i] >= 0x80,
        u(seq![c]).len() > 0,
{
    let s = seq![c];
    if (c as u32) < 0x80 {
        is_ascii_chars_encode_utf8(s);
        assert(encode_utf8(s) =~= seq![c as u8]);
    } else {
        lemma_scalar_high(c as u32);
        lemma_one_scalar(c);
    }
}
proof fn lemma_one_scalar(c: char)
    ensures encode_utf8(seq![c]) == encode_scalar(c as u32)
{
    hide(encode_scalar);
    let s = seq![c];
    assert(s.drop_first() =~= Seq::<char>::empty());
    assert(encode_utf8(s.drop_first()).len() == 0);
    assert(encode_utf8(s) == encode_scalar(s[0] as u32) + encode_utf8(s.drop_first()));
    assert(encode_utf8(s) =~= encode_scalar(c as u32));
}
// a text as httparse takes it for a value
pub open spec fn plain_c(c: char) -> bool { c == '\t' || (c >= ' ' && c != '\x7f') }
pub open spec fn plain_text(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain_c(#[trigger] s[i]) }
pub open spec fn blank_c(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn trimmed(s: Seq<char>) -> bool { s.len() > 0 ==> !blank_c(s[0]) && !blank_c(s.last()) }
pub proof fn lemma_plain(s: Seq<char>)
    requires plain_text(s)
    ensures plain_bytes(u(s)), s.len() > 0 ==> u(s).len() > 0
    decreases s.len()
{
    if s.len() > 0 {
        let a = s.drop_last();
        lemma_plain(a);
        lemma_char_bytes(s.last());
        assert(s =~= a + seq![s.last()]);
        encode_utf8_concat(a, seq![s.last()]);
    }
}
pub proof fn lemma_trimmed(s: Seq<char>)
    requires trimmed(s)
    ensures s.len() == 0 ==> u(s).len() == 0,
        s.len() > 0 ==> u(s).len() > 0 && !blank(u(s)[0]) && !blank(u(s).last())
{
    if s.len() > 0 {
        lemma_char_bytes(s.last());
        lemma_char_bytes(s[0]);
        let a = s.drop_last();
        let z = seq![s.last()];
        assert(s =~= a + z);
        encode_utf8_concat(a, z);
        let f = seq![s[0]];
        let r = s.drop_first();
        assert(s =~= f + r);
        encode_utf8_concat(f, r);
        assert(u(s).last() == u(z).last());
        assert(u(s)[0] == u(f)[0]);
    }
}
pub open spec fn no_lf(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 10 }

// ---------------------------------------------------------------- where the head ends
// whole lines, no two line ends in a row
pub open spec fn whole(s: Seq<u8>) -> bool { no_end(s, s.len() as int) && s.len() >= 3 && s[s.len() - 1] == 10 && s[s.len() - 2] == 13 && s[s.len() - 3] != 10 }
pub proof fn lemma_crlf() ensures u("\r\n"@) == seq![13u8, 10u8]
{
    reveal_strlit("\r\n");
    assert("\r\n"@ =~= seq!['\r'] + seq!['\n']);
    encode_utf8_concat(seq!['\r'], seq!['\n']);
    lemma_char_bytes('\r'); lemma_char_bytes('\n');
    assert(u("\r\n"@) =~= seq![13u8, 10u8]);
}
pub proof fn lemma_first_whole(t: Seq<u8>)
    requires t.len() > 0, no_lf(t)
    ensures whole(t + u("\r\n"@))
{
    lemma_crlf();
    let s = t + u("\r\n"@);
    assert forall|m: int| m <= s.len() implies !#[trigger] ends_at(s, m) by {
        if ends_at(s, m) { assert(s.subrange(m - 4, m)[3] == s[m - 1]); assert(s.subrange(m - 4, m)[1] == s[m - 3]); }
    }
    assert(s[s.len() - 3] == t[t.len() - 1]);
}
pub proof fn lemma_next_whole(s0: Seq<u8>, t: Seq<u8>)
    requires whole(s0), t.len() > 0, no_lf(t)
    ensures whole(s0 + t + u("\r\n"@))
{
    lemma_crlf();
    let s = s0 + t + u("\r\n"@);
    assert forall|m: int| m <= s.len() implies !#[trigger] ends_at(s, m) by {
        if ends_at(s, m) {
            assert(s.subrange(m - 4, m)[3] == s[m - 1]);
            assert(s.subrange(m - 4, m)[1] == s[m - 3]);
            if m <= s0.len() { assert(s.subrange(m - 4, m) =~= s0.subrange(m - 4, m)); assert(ends_at(s0, m)); }
            else if m < s.len() - 1 { assert(s[m - 1] == t[m - 1 - s0.len()]); }
            else { assert(s[m - 3] == t[m - 3 - s0.len()] || m == s.len() - 1); }
        }
    }
    assert(s[s.len() - 3] == t[t.len() - 1]);
}
pub proof fn lemma_head_end(s0: Seq<u8>, b: Seq<u8>)
    requires whole(s0)
    ensures head_is(s0 + u("\r\n"@) + b, s0.len() as int + 2)
{
    lemma_crlf();
    let s = s0 + u("\r\n"@) + b;
    let n = s0.len() as int + 2;
    assert(s.subrange(n - 4, n) =~= crlf2());
    assert forall|m: int| m <= n - 1 implies !#[trigger] ends_at(s, m) by {
        if ends_at(s, m) {
            assert(s.subrange(m - 4, m)[3] == s[m - 1]);
            if m <= s0.len() { assert(s.subrange(m - 4, m) =~= s0.subrange(m - 4, m)); assert(ends_at(s0, m)); }
        }
    }
}
pub proof fn lemma_head_unique(s: Seq<u8>, a: int, b: int)
    requires head_is(s, a), head_is(s, b)
    ensures a == b
{ if a < b { assert(ends_at(s, a)); } else if b < a { assert(ends_at(s, b)); } }
pub proof fn lemma_token_no_lf(s: Seq<char>)
    requires token(s) ensures no_lf(u(s)), u(s).len() > 0
{ assert(plain_text(s)); lemma_plain(s); }
pub proof fn lemma_line(l: HLine)
    requires line_ok(l)
    ensures ({ let t = u(l.name) + u(":"@) + l.pre + l.value + l.post; no_lf(t) && t.len() > 0 && line_bytes(l) == t + u("\r\n"@) })
{
    lemma_token_no_lf(l.name);
    reveal_strlit(":");
    assert(":"@ =~= seq![':']);
    lemma_char_bytes(':');
    let t = u(l.name) + u(":"@) + l.pre + l.value + l.post;
    let a = u(l.name) + u(":"@);
    assert(no_lf(a));
    let b = a + l.pre;
    assert(no_lf(b)) by { assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != 10 by { if i >= a.len() { assert(blank(l.pre[i - a.len()])); } } }
    let c = b + l.value;
    assert(no_lf(c)) by { assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] != 10 by { if i >= b.len() { assert(plain_b(l.value[i - b.len()])); } } }
    assert(t =~= c + l.post);
    assert(no_lf(t)) by { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 10 by { if i >= c.len() { assert(blank(l.post[i - c.len()])); } } }
    assert(line_bytes(l) =~= t + u("\r\n"@));
}
pub proof fn lemma_lines_whole(s0: Seq<u8>, l: Seq<HLine>)
    requires whole(s0), lines_ok(l)
    ensures whole(s0 + lines_bytes(l))
    decreases l.len()
{
    if l.len() == 0 { assert(s0 + lines_bytes(l) =~= s0); } else {
        let a = l.drop_last();
        assert(lines_ok(a)) by { assert forall|i: int| 0 <= i < a.len() implies line_ok(#[trigger] a[i]) by { assert(a[i] == l[i]); } }
        lemma_lines_whole(s0, a);
        assert(line_ok(l[l.len() - 1]));
        lemma_line(l.last());
        let t = u(l.last().name) + u(":"@) + l.last().pre + l.last().value + l.last().post;
        lemma_next_whole(s0 + lines_bytes(a), t);
        assert(s0 + lines_bytes(l) =~= s0 + lines_bytes(a) + t + u("\r\n"@));
    }
}
pub proof fn lemma_lit_plain(s: Seq<char>)
    requires plain_text(s) ensures no_lf(u(s))
{ lemma_plain(s); }

// ---------------------------------------------------------------- C09, C11: a well-formed head is read as it is written
pub proof fn lemma_first_req(method: Seq<char>, t: Seq<char>, minor: Seq<char>)
    requires token(method), target(t), minor_ok(minor)
    ensures whole(first_line_req(method, t, minor))
{
    lemma_token_no_lf(method);
    assert(plain_text(t)); lemma_plain(t);
    reveal_strlit(" "); reveal_strlit(" HTTP/1."); reveal_strlit("0"); reveal_strlit("1");
    lemma_lit_plain(" "@); lemma_lit_plain(" HTTP/1."@); lemma_lit_plain(minor);
    let x = u(method) + u(" "@) + u(t) + u(" HTTP/1."@) + u(minor);
    assert(no_lf(x));
    lemma_first_whole(x);
}
pub proof fn lemma_first_res(minor: Seq<char>, code: u16, reason: Seq<char>)
    requires reason_ok(reason), minor_ok(minor)
    ensures whole(first_line_res(minor, code, reason))
{
    lemma_digits(code as nat);
    assert(plain_text(dec_text(code as nat))) by { assert forall|i: int| 0 <= i < dec_text(code as nat).len() implies plain_c(#[trigger] dec_text(code as nat)[i]) by { assert(digit(dec_text(code as nat)[i])); } }
    assert(plain_text(reason)) by { assert forall|i: int| 0 <= i < reason.len() implies plain_c(#[trigger] reason[i]) by { assert(reason_c(reason[i])); } }
    lemma_plain(dec_text(code as nat)); lemma_plain(reason);
    reveal_strlit(" "); reveal_strlit("HTTP/1."); reveal_strlit("0"); reveal_strlit("1");
    lemma_lit_plain(" "@); lemma_plain("HTTP/1."@); lemma_lit_plain(minor);
    let x = u("HTTP/1."@) + u(minor) + u(" "@) + dec(code) + u(" "@) + u(reason);
    assert(no_lf(x));
    lemma_first_whole(x);
}
pub proof fn lemma_cut(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures ({ let s = a + b + c; let n = (a.len() + b.len()) as int; s.take(n) == a + b && s.skip(n) == c && s.len() == n + c.len() })
{
    let s = a + b + c; let n = (a.len() + b.len()) as int;
    assert(s.take(n) =~= a + b);
    assert(s.skip(n) =~= c);
}
// a first line, header lines, an empty line, a body: where they are
pub proof fn lemma_layout(f: Seq<u8>, l: Seq<HLine>, b: Seq<u8>)
    requires whole(f), lines_ok(l)
    ensures ({ let s = f + lines_bytes(l) + u("\r\n"@) + b; let n = f.len() as int + lines_bytes(l).len() + 2;
        head_is(s, n) && s.take(n) == f + lines_bytes(l) + u("\r\n"@) && s.skip(n) == b && s.len() == n + b.len() })
{
    hide(whole); hide(head_is); hide(lines_ok); hide(lines_bytes); hide(crlf2);
    lemma_lines_whole(f, l);
    let s0 = f + lines_bytes(l);
    lemma_head_end(s0, b);
    lemma_crlf();
    lemma_cut(s0, u("\r\n"@), b);
}
// with the end of the head known, parsing has one outcome
pub proof fn lemma_req_at(s: Seq<u8>, n: int, r: Request)
    requires head_is(s, n)
    ensures !request_none(s), request_err(s, false) == no_request(s, n), request_some(s, r) == is_request(s, n, r)
{
    assert(ends_at(s, n));
    assert forall|m: int| #[trigger] head_is(s, m) implies m == n by { lemma_head_unique(s, m, n); }
}
pub proof fn lemma_res_at(s: Seq<u8>, n: int, r: Response)
    requires head_is(s, n)
    ensures !response_none(s), response_err(s, false) == no_response(s, n), response_some(s, r) == is_response(s, n, r)
{
    assert(ends_at(s, n));
    assert forall|m: int| #[trigger] head_is(s, m) implies m == n by { lemma_head_unique(s, m, n); }
}
pub open spec fn texts_ok(l: Seq<HLine>) -> bool { forall|i: int| 0 <= i < l.len() ==> valid_utf8((#[trigger] l[i]).value) }
// the body behind a head: `b` up to the announced length
pub open spec fn body_of(b: Seq<u8>, m: HMap, r: Body) -> bool {
    content_length(m, r.length) && r.rem() == b.take(if r.length is Some { minint(r.length->Some_0 as int, b.len() as int) } else { b.len() as int })
}
// Any well-formed head of at most MAX_HEADERS headers with a usable target and a Host is parsed, into exactly what it says.
pub proof fn well_formed_request_is_parsed(method: Seq<char>, t: Seq<char>, minor: Seq<char>, l: Seq<HLine>, b: Seq<u8>, s: Seq<u8>, r: Request)
    requires
        token(method), target(t), minor_ok(minor), lines_ok(l), l.len() <= MAX_HEADERS, texts_ok(l),
        s == first_line_req(method, t, minor) + lines_bytes(l) + u("\r\n"@) + b,
        // every Host it may have gives a URL, and it has one
        !picks(hdr_map(says(l)), "host"@, None),
        forall|h: Seq<char>| #[trigger] picks(hdr_map(says(l)), "host"@, Some(h)) ==> url_of(ReqHead { method: Some(method), path: Some(t), headers: says(l) }, h) is Some,
    ensures
        !request_none(s), //#C09
        !request_err(s, false), //#C09
        request_some(s, r) ==> method_of(method, r.method) && r.headers@ == hdr_map(says(l)) && body_of(b, r.headers@, r.body), //#C09
        request_some(s, r) ==> exists|h: Seq<char>| #[trigger] picks(r.headers@, "host"@, Some(h)) && url_of(ReqHead { method: Some(method), path: Some(t), headers: says(l) }, h) == Some(r.url.v()), //#C09
{
    let f = first_line_req(method, t, minor);
    lemma_first_req(method, t, minor);
    lemma_layout(f, l, b);
    let n = f.len() as int + lines_bytes(l).len() + 2;
    axiom_httparse_request(method, t, minor, l, MAX_HEADERS as int);
    lemma_utf8_all(l);
    lemma_req_at(s, n, r);
}
pub proof fn lemma_utf8_all(l: Seq<HLine>)
    requires texts_ok(l) ensures utf8_all(says(l))
{
    let h = says(l);
    assert forall|i: int| 0 <= i < h.len() implies valid_utf8((#[trigger] h[i]).1) by { assert(valid_utf8(l[i].value)); }
}
pub proof fn well_formed_response_is_parsed(minor: Seq<char>, code: u16, reason: Seq<char>, l: Seq<HLine>, b: Seq<u8>, s: Seq<u8>, r: Response)
    requires
        100 <= code <= 999, reason_ok(reason), minor_ok(minor), lines_ok(l), l.len() <= MAX_HEADERS, texts_ok(l),
        s == first_line_res(minor, code, reason) + lines_bytes(l) + u("\r\n"@) + b,
    ensures
        !response_none(s), //#C11
        !response_err(s, false), //#C11
        response_some(s, r) ==> r.status == code && r.reason@ == reason && r.headers@ == hdr_map(says(l)) && body_of(b, r.headers@, r.body), //#C11
{
    let f = first_line_res(minor, code, reason);
    lemma_first_res(minor, code, reason);
    lemma_layout(f, l, b);
    let n = f.len() as int + lines_bytes(l).len() + 2;
    axiom_httparse_response(minor, code, reason, l, MAX_HEADERS as int);
    lemma_utf8_all(l);
    lemma_res_at(s, n, r);
}

// ---------------------------------------------------------------- C10, C11: what is written parses back
pub open spec fn as_line(p: (Seq<char>, Seq<char>)) -> HLine { HLine { name: p.0, pre: u(" "@), value: u(p.1), post: Seq::empty() } }
pub open spec fn as_lines(s: HList) -> Seq<HLine> { s.map_values(|p: (Seq<char>, Seq<char>)| as_line(p)) }
// headers which can be sent: token names, values without control characters or white space at their ends
pub open spec fn sendable(m: HMap) -> bool {
    forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> token(k) && plain_text(m[k]) && trimmed(m[k])
}
pub proof fn lemma_as_lines(m: HMap, s: HList)
    requires lists(m, s), sendable(m)
    ensures lines_ok(as_lines(s)), texts_ok(as_lines(s)), lines_bytes(as_lines(s)) == enc_lines(s)
{
    let l = as_lines(s);
    assert forall|i: int| 0 <= i < l.len() implies line_ok(#[trigger] l[i]) && valid_utf8(l[i].value) by {
        let p = s[i];
        assert(m.contains_key(p.0) && m[p.0] == p.1);
        lemma_plain(p.1); lemma_trimmed(p.1);
        encode_utf8_valid_utf8(p.1);
        lemma_space();
    }
    lemma_as_bytes(s);
}
pub proof fn lemma_space() ensures u(" "@) == seq![32u8], blanks(u(" "@)), u(": "@) == u(":"@) + u(" "@)
{
    reveal_strlit(" "); reveal_strlit(":"); reveal_strlit(": ");
    assert(" "@ =~= seq![' ']); assert(":"@ =~= seq![':']); assert(": "@ =~= ":"@ + " "@);
    encode_utf8_concat(":"@, " "@);
    lemma_char_bytes(' ');
}
pub proof fn lemma_as_bytes(s: HList)
    ensures lines_bytes(as_lines(s)) == enc_lines(s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_as_bytes(s.drop_last());
        assert(as_lines(s).drop_last() =~= as_lines(s.drop_last()));
        lemma_space();
        let p = s.last();
        assert(as_lines(s).last() == as_line(p));
        assert(line_bytes(as_line(p)) =~= enc_line(p));
    }
}
// every name once: the map made of the lines is the map that was written
pub proof fn lemma_map_again(m: HMap, s: HList)
    requires lists(m, s)
    ensures hdr_map(says(as_lines(s))) == m
{
    lemma_map_part(m, s, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    let h = hdr_map(says(as_lines(s)));
    assert forall|k: Seq<char>| m.contains_key(k) <==> h.contains_key(k) by {
        if m.contains_key(k) { assert(s.contains((k, m[k]))); let i = choose|i: int| 0 <= i < s.len() && s[i] == (k, m[k]); assert(h.contains_key(s[i].0)); }
    }
    assert(h =~= m);
}
pub proof fn lemma_map_part(m: HMap, s: HList, n: int)
    requires lists(m, s), 0 <= n <= s.len()
    ensures ({ let h = hdr_map(says(as_lines(s.take(n))));
        (forall|k: Seq<char>| #[trigger] h.contains_key(k) ==> m.contains_key(k) && h[k] == m[k])
        && (forall|i: int| 0 <= i < n ==> h.contains_key((#[trigger] s[i]).0)) })
    decreases n
{
    if n > 0 {
        lemma_map_part(m, s, n - 1);
        let a = says(as_lines(s.take(n)));
        assert(a.drop_last() =~= says(as_lines(s.take(n - 1))));
        assert(a.last() == (s[n - 1].0, u(s[n - 1].1)));
        encode_utf8_decode_utf8(s[n - 1].1);
        assert(m.contains_key(s[n - 1].0));
        let g = hdr_map(says(as_lines(s.take(n - 1))));
        let h = hdr_map(a);
        assert(h == g.insert(s[n - 1].0, s[n - 1].1));
        assert forall|i: int| 0 <= i < n implies h.contains_key((#[trigger] s[i]).0) by { if i < n - 1 { assert(g.contains_key(s[i].0)); } }
    }
}
// the length the headers announce, if any, is the body's
pub open spec fn announces(m: HMap, body: Seq<u8>) -> bool {
    forall|k: Seq<char>| #[trigger] m.contains_key(k) && lower(k) == lower("content-length"@) ==> usize_of(m[k]) == Some(body.len() as usize)
}
pub proof fn lemma_announced(m: HMap, b: Seq<u8>, r: Body)
    requires announces(m, b), b.len() <= usize::MAX, body_of(b, m, r)
    ensures r.rem() == b
{
    let v = choose|v: Option<Seq<char>>| #[trigger] picks(m, "content-length"@, v) && r.length == (if v is Some { usize_of(v->Some_0) } else { None });
    if v is Some {
        let k = choose|k: Seq<char>| #[trigger] m.contains_key(k) && lower(k) == lower("content-length"@) && m[k] == v->Some_0;
        assert(usize_of(m[k]) == Some(b.len() as usize));
    }
    assert(r.rem() =~= b);
}
// a response written by this library parses back to itself
pub proof fn response_round_trip(a: Response, s: Seq<u8>, r: Response)
    requires
        a.wire(s),
        100 <= a.status <= 999, reason_ok(a.reason@), sendable(a.headers@), a.headers@.dom().finite(), a.headers@.dom().len() <= MAX_HEADERS,
        announces(a.headers@, a.body.rem()), a.body.rem().len() <= usize::MAX,
    ensures
        !response_none(s), //#C11
        !response_err(s, false), //#C11
        response_some(s, r) ==> r.status == a.status && r.reason@ == a.reason@ && r.headers@ == a.headers@ && r.body.rem() == a.body.rem(), //#C11
{
    hide(response_some); hide(response_none); hide(response_err); hide(hdr_map); hide(lines_bytes); hide(enc_lines); hide(announces); hide(body_of);
    let l = choose|l: HList| #[trigger] lists(a.headers@, l) && ascending(l) && s == enc_response(a.status, a.reason@, l, a.body.rem());
    lemma_as_lines(a.headers@, l);
    lemma_map_again(a.headers@, l);
    lemma_lists_len(a.headers@, l);
    let b = a.body.rem();
    lemma_res_form(a.status, a.reason@, l, b);
    well_formed_response_is_parsed("1"@, a.status, a.reason@, as_lines(l), b, s, r);
    if response_some(s, r) { lemma_announced(a.headers@, b, r.body); }
}
pub proof fn lemma_res_form(status: u16, reason: Seq<char>, l: HList, b: Seq<u8>)
    ensures enc_response(status, reason, l, b) == first_line_res("1"@, status, reason) + lines_bytes(as_lines(l)) + u("\r\n"@) + b
{
    lemma_http11();
    lemma_as_bytes(l);
    assert(enc_response(status, reason, l, b) =~= first_line_res("1"@, status, reason) + lines_bytes(as_lines(l)) + u("\r\n"@) + b);
}
pub proof fn lemma_req_form(m: Method, v: UrlV, l: HList, b: Seq<u8>)
    ensures enc_request(m, v, l, b) == first_line_req(method_text(m), target_of(v), "1"@) + lines_bytes(as_lines(l)) + u("\r\n"@) + b
{
    lemma_http11();
    lemma_as_bytes(l);
    lemma_target(v);
    assert(enc_line1(m, v) =~= first_line_req(method_text(m), target_of(v), "1"@));
    assert(enc_request(m, v, l, b) =~= first_line_req(method_text(m), target_of(v), "1"@) + lines_bytes(as_lines(l)) + u("\r\n"@) + b);
}
pub proof fn lemma_http11()
    ensures u("HTTP/1.1 "@) == u("HTTP/1."@) + u("1"@) + u(" "@), u(" HTTP/1.1\r\n"@) == u(" HTTP/1."@) + u("1"@) + u("\r\n"@)
{
    reveal_strlit(" "); reveal_strlit("HTTP/1.1 "); reveal_strlit("HTTP/1."); reveal_strlit("1"); reveal_strlit(" HTTP/1.1\r\n"); reveal_strlit(" HTTP/1."); reveal_strlit("\r\n");
    assert("HTTP/1.1 "@ =~= "HTTP/1."@ + "1"@ + " "@);
    encode_utf8_concat("HTTP/1."@ + "1"@, " "@);
    encode_utf8_concat("HTTP/1."@, "1"@);
    assert(" HTTP/1.1\r\n"@ =~= " HTTP/1."@ + "1"@ + "\r\n"@);
    encode_utf8_concat(" HTTP/1."@ + "1"@, "\r\n"@);
    encode_utf8_concat(" HTTP/1."@, "1"@);
}
pub proof fn lemma_lists_len(m: HMap, s: HList)
    requires lists(m, s), m.dom().finite()
    ensures s.len() == m.dom().len()
{
    let names = s.map_values(|p: (Seq<char>, Seq<char>)| p.0);
    assert(names.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < names.len() && 0 <= j < names.len() && i != j implies names[i] != names[j] by {
            if names[i] == names[j] { assert(s[i].1 == m[s[i].0] && s[j].1 == m[s[j].0]); assert(s[i] == s[j]); }
        }
    }
    names.unique_seq_to_set();
    assert(names.to_set() =~= m.dom()) by {
        assert forall|k: Seq<char>| m.dom().contains(k) <==> names.to_set().contains(k) by {
            if m.dom().contains(k) { assert(s.contains((k, m[k]))); let i = choose|i: int| 0 <= i < s.len() && s[i] == (k, m[k]); assert(names[i] == k); }
            if names.to_set().contains(k) { let i = choose|i: int| 0 <= i < names.len() && names[i] == k; assert(m.contains_key(s[i].0)); }
        }
    }
}
pub proof fn lemma_target(v: UrlV)
    ensures u(target_of(v)) == u(v.path) + (if v.query is Some { u("?"@) + u(v.query->Some_0) } else { Seq::empty() })
{
    if v.query is Some {
        encode_utf8_concat(v.path, "?"@ + v.query->Some_0);
        encode_utf8_concat("?"@, v.query->Some_0);
    } else { assert(target_of(v) =~= v.path); assert(u(v.path) + Seq::<u8>::empty() =~= u(v.path)); }
}
// a method which is written as it is read
pub open spec fn method_ok(m: Method) -> bool {
    token(method_text(m)) && (m is OtherMethod ==> lower(m->OtherMethod_0@) != "get"@ && lower(m->OtherMethod_0@) != "post"@ && lower(m->OtherMethod_0@) != "head"@)
}
pub open spec fn same_method(a: Method, b: Method) -> bool { method_text(a) == method_text(b) && (a is Get <==> b is Get) && (a is Post <==> b is Post) && (a is Head <==> b is Head) }
// the URL formed again from what was written
pub proof fn lemma_url_again(v: UrlV, mt: Seq<char>, h: Seq<char>, hs: RawList)
    requires web(v), host_ok(h)
    ensures ({ let w = url_of(ReqHead { method: Some(mt), path: Some(target_of(v)), headers: hs }, h); w is Some && w->Some_0.path == v.path && w->Some_0.query == v.query })
{
    reveal_strlit("http://"); reveal_strlit("https://");
    axiom_url_again(v, h);
    let t = target_of(v);
    assert(v.path.take(1)[0] == v.path[0]);
    assert(t[0] == '/');
    assert(t.take(1) =~= seq!['/']);
    if starts(t, "http://"@) { assert(t.take(7)[0] == "http://"@[0]); }
    if starts(t, "https://"@) { assert(t.take(8)[0] == "https://"@[0]); }
}
pub open spec fn hosts_ok(m: HMap) -> bool { forall|h: Seq<char>| #[trigger] picks(m, "host"@, Some(h)) ==> host_ok(h) }
pub proof fn lemma_host_urls(v: UrlV, m: HMap, mt: Seq<char>, hs: RawList)
    requires web(v), hosts_ok(m), !picks(m, "host"@, None)
    ensures
        forall|h: Seq<char>| #[trigger] picks(m, "host"@, Some(h)) ==> ({ let w = url_of(ReqHead { method: Some(mt), path: Some(target_of(v)), headers: hs }, h); w is Some && w->Some_0.path == v.path && w->Some_0.query == v.query }),
        target(target_of(v)),
{
    hide(url_of);
    assert forall|h: Seq<char>| #[trigger] picks(m, "host"@, Some(h)) implies ({ let w = url_of(ReqHead { method: Some(mt), path: Some(target_of(v)), headers: hs }, h); w is Some && w->Some_0.path == v.path && w->Some_0.query == v.query }) by {
        lemma_url_again(v, mt, h, hs);
    }
    let k = choose|k: Seq<char>| #[trigger] m.contains_key(k) && lower(k) == lower("host"@);
    assert(picks(m, "host"@, Some(m[k])));
    axiom_url_again(v, m[k]);
}
pub proof fn lemma_same_method(a: Method, b: Method)
    requires method_ok(a), method_of(method_text(a), b)
    ensures same_method(a, b)
{ lemma_methods(); }
// what is written of a request: a first line, header lines, an empty line and the body
pub proof fn lemma_wire_form(a: Request, s: Seq<u8>) -> (l: HList)
    requires a.wire(s), sendable(a.headers@), a.headers@.dom().finite()
    ensures
        lines_ok(as_lines(l)), texts_ok(as_lines(l)), l.len() == a.headers@.dom().len(), hdr_map(says(as_lines(l))) == a.headers@,
        s == first_line_req(method_text(a.method), target_of(a.url.v()), "1"@) + lines_bytes(as_lines(l)) + u("\r\n"@) + a.body.rem(),
{
    hide(hdr_map); hide(lines_bytes); hide(enc_lines); hide(sendable); hide(enc_request);
    let l = choose|l: HList| #[trigger] lists(a.headers@, l) && s == enc_request(a.method, a.url.v(), l, a.body.rem());
    lemma_as_lines(a.headers@, l);
    lemma_map_again(a.headers@, l);
    lemma_lists_len(a.headers@, l);
    lemma_req_form(a.method, a.url.v(), l, a.body.rem());
    l
}
// a request written by this library parses back to itself
pub proof fn request_round_trip(a: Request, s: Seq<u8>, r: Request)
    requires
        a.wire(s), method_ok(a.method), web(a.url.v()), sendable(a.headers@), a.headers@.dom().finite(), a.headers@.dom().len() <= MAX_HEADERS,
        !picks(a.headers@, "host"@, None), hosts_ok(a.headers@),
        announces(a.headers@, a.body.rem()), a.body.rem().len() <= usize::MAX,
    ensures
        !request_none(s), //#C10
        !request_err(s, false), //#C10
        request_some(s, r) ==> same_method(a.method, r.method) && r.url.v().path == a.url.v().path && r.url.v().query == a.url.v().query
            && r.headers@ == a.headers@ && r.body.rem() == a.body.rem(), //#C10
{
    hide(request_some); hide(request_none); hide(request_err); hide(hdr_map); hide(lines_bytes); hide(enc_lines); hide(announces); hide(body_of); hide(url_of); hide(sendable);
    hide(Request::wire); hide(first_line_req); hide(picks); hide(target_of); hide(lines_ok); hide(texts_ok); hide(method_of); hide(same_method); hide(hosts_ok); hide(as_lines); hide(says);
    let v = a.url.v();
    let l = lemma_wire_form(a, s);
    let mt = method_text(a.method);
    let hs = says(as_lines(l));
    assert(as_lines(l).len() == l.len()) by { reveal(as_lines); }
    assert(token(mt));
    lemma_host_urls(v, a.headers@, mt, hs);
    well_formed_request_is_parsed(mt, target_of(v), "1"@, as_lines(l), a.body.rem(), s, r);
    if request_some(s, r) {
        lemma_announced(a.headers@, a.body.rem(), r.body);
        lemma_same_method(a.method, r.method);
    }
}
pub proof fn lemma_methods()
    ensures lower("GET"@) == "get"@, lower("POST"@) == "post"@, lower("HEAD"@) == "head"@, "get"@ != "post"@, "get"@ != "head"@, "post"@ != "head"@
{
    reveal_strlit("GET"); reveal_strlit("POST"); reveal_strlit("HEAD"); reveal_strlit("get"); reveal_strlit("post"); reveal_strlit("head");
    assert(lower("GET"@) =~= "get"@); assert(lower("POST"@) =~= "post"@); assert(lower("HEAD"@) =~= "head"@);
    assert("get"@.len() == 3 && "post"@.len() == 4 && "head"@.len() == 4 && "post"@[0] == 'p' && "head"@[0] == 'h');
}
