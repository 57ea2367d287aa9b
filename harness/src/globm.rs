//! Reference semantics of glob patterns over the letters of argument kinds.
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub enum P {
    /// one letter out of a set
    Set(Vec<u8>),
    /// any number of letters
    Star,
    Alt(Vec<Vec<P>>),
}

pub const SIGMA: &[u8] = b"tbp";

/// Position automaton: states are the positions of letters, 0 is the start.
pub struct Nfa {
    sets: Vec<Vec<u8>>,
    follow: Vec<BTreeSet<usize>>,
    pub last: BTreeSet<usize>,
}

struct Frag {
    first: BTreeSet<usize>,
    last: BTreeSet<usize>,
    nullable: bool,
}

impl Nfa {
    pub fn new(p: &[P]) -> Nfa {
        let mut n = Nfa { sets: vec![vec![]], follow: vec![BTreeSet::new()], last: BTreeSet::new() };
        let f = n.seq(p);
        n.follow[0] = f.first;
        n.last = f.last;
        if f.nullable {
            n.last.insert(0);
        }
        n
    }
    fn seq(&mut self, p: &[P]) -> Frag {
        let mut r = Frag { first: BTreeSet::new(), last: BTreeSet::new(), nullable: true };
        for x in p {
            let f = self.one(x);
            for l in &r.last {
                self.follow[*l].extend(f.first.iter().copied());
            }
            if r.nullable {
                r.first.extend(f.first.iter().copied());
            }
            if f.nullable {
                r.last.extend(f.last);
            } else {
                r.last = f.last;
            }
            r.nullable &= f.nullable;
        }
        r
    }
    fn pos(&mut self, s: Vec<u8>) -> usize {
        self.sets.push(s);
        self.follow.push(BTreeSet::new());
        self.sets.len() - 1
    }
    fn one(&mut self, p: &P) -> Frag {
        match p {
            P::Set(s) => {
                let i = self.pos(s.clone());
                Frag { first: [i].into(), last: [i].into(), nullable: false }
            }
            P::Star => {
                let i = self.pos(SIGMA.to_vec());
                self.follow[i].insert(i);
                Frag { first: [i].into(), last: [i].into(), nullable: true }
            }
            P::Alt(a) => {
                let mut r = Frag { first: BTreeSet::new(), last: BTreeSet::new(), nullable: false };
                for x in a {
                    let f = self.seq(x);
                    r.first.extend(f.first);
                    r.last.extend(f.last);
                    r.nullable |= f.nullable;
                }
                r
            }
        }
    }
    /// Every letter decides which position it is at: no two positions compete.
    pub fn deterministic(&self) -> bool {
        self.follow.iter().all(|f| {
            SIGMA.iter().all(|c| f.iter().filter(|p| self.sets[**p].contains(c)).count() <= 1)
        })
    }
    fn step(&self, s: &BTreeSet<usize>, c: u8) -> BTreeSet<usize> {
        s.iter().flat_map(|p| self.follow[*p].iter()).filter(|p| self.sets[**p].contains(&c)).copied().collect()
    }
    /// Whether some word of the language starts with `w` (every position can be completed).
    pub fn prefix(&self, w: &[u8]) -> bool {
        let mut s: BTreeSet<usize> = [0].into();
        for c in w {
            s = self.step(&s, *c);
        }
        !s.is_empty()
    }
    pub fn accepts(&self, w: &[u8]) -> bool {
        let mut s: BTreeSet<usize> = [0].into();
        for c in w {
            s = self.step(&s, *c);
        }
        s.iter().any(|p| self.last.contains(p))
    }
}

/// Parses the patterns that the enumeration builds.
pub fn parse(s: &str) -> Option<Vec<P>> {
    let b = s.as_bytes();
    let mut i = 0;
    let r = seq(b, &mut i, 0)?;
    (i == b.len()).then_some(r)
}
fn seq(b: &[u8], i: &mut usize, depth: usize) -> Option<Vec<P>> {
    let mut r = vec![];
    while *i < b.len() {
        match b[*i] {
            b'*' => {
                r.push(P::Star);
                *i += 1;
            }
            b'?' => {
                r.push(P::Set(SIGMA.to_vec()));
                *i += 1;
            }
            b'[' => {
                let neg = matches!(b[*i + 1], b'!' | b'^');
                let from = *i + 1 + neg as usize;
                // (a bracket right at the start is one of the characters)
                let e = from + 1 + b.get(from + 1..)?.iter().position(|c| *c == b']')?;
                // the places of the dashes that part the ends of a range
                let body = &b[from..e];
                let mut ranges = vec![];
                let mut k = 0;
                while k < body.len() {
                    if k + 2 < body.len() && body[k + 1] == b'-' {
                        ranges.push(body[k]..=body[k + 2]);
                        k += 3;
                    } else {
                        ranges.push(body[k]..=body[k]);
                        k += 1;
                    }
                }
                r.push(P::Set(SIGMA.iter().copied().filter(|c| ranges.iter().any(|r| r.contains(c)) != neg).collect()));
                *i = e + 1;
            }
            b'{' => {
                let mut alts = vec![];
                loop {
                    *i += 1;
                    alts.push(seq(b, i, depth + 1)?);
                    match b.get(*i)? {
                        b',' => {}
                        b'}' => {
                            *i += 1;
                            break;
                        }
                        _ => return None,
                    }
                }
                r.push(P::Alt(alts));
            }
            b',' | b'}' if depth > 0 => return Some(r),
            b',' | b'}' => return None,
            c => {
                r.push(P::Set(vec![c]));
                *i += 1;
            }
        }
    }
    Some(r)
}
