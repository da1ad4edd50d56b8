// decimal digits
pub use dec::*;
pub mod dec {
use vstd::prelude::*;
use super::stdspec::parsed;
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digit_char(d: int) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}
pub open spec fn dec_text(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit_char(n as int)] } else { dec_text(n / 10).push(digit_char((n % 10) as int)) }
}
pub open spec fn dec_val(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
// std's decimal form: an optional `+`, then digits, at most usize::MAX
pub open spec fn usize_of(s: Seq<char>) -> Option<usize> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if digits(d) && dec_val(d) <= usize::MAX { Some(dec_val(d) as usize) } else { None }
}
// std: an optional sign (`-` only if the type has one), then digits, of a value in range
pub open spec fn int_text(s: Seq<char>, lo: int, hi: int) -> bool {
    if s.len() > 0 && s[0] == '+' { digits(s.skip(1)) && dec_val(s.skip(1)) <= hi }
    else if s.len() > 0 && s[0] == '-' && lo < 0 { digits(s.skip(1)) && -dec_val(s.skip(1)) >= lo }
    else { digits(s) && dec_val(s) <= hi }
}
pub open spec fn int_val(s: Seq<char>) -> int {
    if s.len() > 0 && s[0] == '+' { dec_val(s.skip(1)) } else if s.len() > 0 && s[0] == '-' { -dec_val(s.skip(1)) } else { dec_val(s) }
}
// what std's FromStr of the integer types reads
pub broadcast axiom fn axiom_parse_usize(s: Seq<char>) ensures #[trigger] parsed::<usize>(s) == usize_of(s);
pub broadcast axiom fn axiom_parse_u8(s: Seq<char>) ensures #[trigger] parsed::<u8>(s) == (if int_text(s, 0, u8::MAX as int) { Some(int_val(s) as u8) } else { None::<u8> });
pub broadcast axiom fn axiom_parse_u16(s: Seq<char>) ensures #[trigger] parsed::<u16>(s) == (if int_text(s, 0, u16::MAX as int) { Some(int_val(s) as u16) } else { None::<u16> });
pub broadcast axiom fn axiom_parse_u32(s: Seq<char>) ensures #[trigger] parsed::<u32>(s) == (if int_text(s, 0, u32::MAX as int) { Some(int_val(s) as u32) } else { None::<u32> });
pub broadcast axiom fn axiom_parse_u64(s: Seq<char>) ensures #[trigger] parsed::<u64>(s) == (if int_text(s, 0, u64::MAX as int) { Some(int_val(s) as u64) } else { None::<u64> });
pub broadcast axiom fn axiom_parse_i32(s: Seq<char>) ensures #[trigger] parsed::<i32>(s) == (if int_text(s, i32::MIN as int, i32::MAX as int) { Some(int_val(s) as i32) } else { None::<i32> });
pub broadcast axiom fn axiom_parse_i64(s: Seq<char>) ensures #[trigger] parsed::<i64>(s) == (if int_text(s, i64::MIN as int, i64::MAX as int) { Some(int_val(s) as i64) } else { None::<i64> });
pub broadcast axiom fn axiom_parse_isize(s: Seq<char>) ensures #[trigger] parsed::<isize>(s) == (if int_text(s, isize::MIN as int, isize::MAX as int) { Some(int_val(s) as isize) } else { None::<isize> });
pub broadcast group group_parse { axiom_parse_usize, axiom_parse_u8, axiom_parse_u16, axiom_parse_u32, axiom_parse_u64, axiom_parse_i32, axiom_parse_i64, axiom_parse_isize }
pub proof fn lemma_digits(n: nat)
    ensures digits(dec_text(n)), dec_val(dec_text(n)) == n
    decreases n
{
    if n < 10 {
        let s = dec_text(n);
        assert(s.drop_last() =~= Seq::<char>::empty());
        assert(dec_val(s.drop_last()) == 0);
    } else {
        lemma_digits(n / 10);
        let s = dec_text(n);
        assert(s.drop_last() =~= dec_text(n / 10));
        assert(s.last() == digit_char((n % 10) as int));
    }
}
pub broadcast proof fn lemma_dec(n: usize)
    ensures usize_of(#[trigger] dec_text(n as nat)) == Some(n)
{
    lemma_digits(n as nat);
    let s = dec_text(n as nat);
    assert(digit(s[0]));
}
}
