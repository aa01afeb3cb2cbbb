pub open spec fn lower_char(c: char) -> char {
    if c == 'A' {'a'} else if c == 'B' {'b'} else if c == 'C' {'c'} else if c == 'D' {'d'} else if c == 'E' {'e'} else if c == 'F' {'f'} else if c == 'G' {'g'}
    else if c == 'H' {'h'} else if c == 'I' {'i'} else if c == 'J' {'j'} else if c == 'K' {'k'} else if c == 'L' {'l'} else if c == 'M' {'m'} else if c == 'N' {'n'}
    else if c == 'O' {'o'} else if c == 'P' {'p'} else if c == 'Q' {'q'} else if c == 'R' {'r'} else if c == 'S' {'s'} else if c == 'T' {'t'} else if c == 'U' {'u'}
    else if c == 'V' {'v'} else if c == 'W' {'w'} else if c == 'X' {'x'} else if c == 'Y' {'y'} else if c == 'Z' {'z'} else { c }
}
pub open spec fn lower(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| lower_char(s[i])) }
pub assume_specification [str::eq_ignore_ascii_case] (a: &str, b: &str) -> (r: bool)
    ensures r == (lower(a@) == lower(b@));
