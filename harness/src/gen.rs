use crate::sim::*;
use crate::types::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub fn gen_cfg(r: &mut Rng, types: &[&str]) -> Cfg {
    let n = *r.pick(&[3usize, 3, 3, 3, 2, 4, 5]);
    let flex = if r.chance(1, 4) && n >= 3 {
        let opts: &[(usize, usize)] = match n {
            3 => &[(2, 2), (3, 2), (3, 3)],
            4 => &[(3, 2), (3, 3), (4, 2), (4, 3)],
            _ => &[(4, 2), (3, 3), (5, 2), (4, 3), (5, 3)],
        };
        Some(*r.pick(opts))
    } else {
        None
    };
    Cfg {
        ty: r.pick(types).to_string(),
        n,
        flex,
        batch: *r.pick(&[1usize, 1, 2, 3, 4]),
        backend: *r.pick(&[0u8, 0, 1, 2]),
        lazy: r.chance(1, 2),
        election: *r.pick(&[1_000_000u64, 1_000_000, 1, 2, 3]),
        resend: *r.pick(&[1u64, 2, 4]),
        flush: *r.pick(&[1u64, 2, 5]),
        sparse: r.chance(1, 12),
        hold: r.chance(1, 4),
    }
}

/// weights of the kinds of action in one run
struct W([u64; 15]);

fn gen_w(r: &mut Rng) -> W {
    //         del tak tick app lead crash arm rec reconn cut heal drop comp reconf read
    let base = [600, 60, 60, 120, 25, 5, 8, 40, 10, 8, 20, 10, 30, 2, 20];
    let mut w = base;
    // turn some kinds off or up in this run
    for i in [4, 5, 6, 8, 9, 11, 12, 13] {
        match r.below(5) {
            0 | 1 => w[i] = 0,
            2 => w[i] *= 3,
            _ => {}
        }
    }
    if r.chance(1, 3) {
        w[0] = 250
    }
    if r.chance(1, 4) {
        w[3] *= 3
    }
    if w[5] + w[6] == 0 {
        w[7] = 0
    }
    W(w)
}

pub struct Outcome {
    pub cfg: Cfg,
    pub acts: Vec<Act>,
    pub viol: Vec<Violation>,
    pub stats: [u64; 8],
}

pub fn random_run<T: SE>(cfg: Cfg, r: &mut Rng, uniq: u64) -> Outcome {
    let len = *r.pick(&[60usize, 120, 120, 250, 400]);
    let w = gen_w(r);
    let n = cfg.n as u64;
    let mut s = Sim::<T>::new(&cfg, uniq);
    let mut acts = Vec::with_capacity(len);
    let mut cuts: Vec<(u8, u8)> = vec![];
    let mut focus: Vec<(u8, u8)> = vec![];
    // a few elections up front
    let mut script: Vec<Act> = vec![];
    if cfg.election > 1000 || r.chance(1, 2) {
        script.push(Act::Lead(r.below(n) as u8));
    }
    while acts.len() < len && !s.dead {
        let a = if let Some(a) = script.pop() {
            a
        } else {
            let tot: u64 = w.0.iter().sum();
            let mut x = r.below(tot);
            let mut k = 0;
            while x >= w.0[k] {
                x -= w.0[k];
                k += 1;
            }
            let i = r.below(n) as u8;
            let j = r.below(n) as u8;
            let leader = (0..n as u8).filter(|i| s.is_leader(*i)).last();
            match k {
                0 => {
                    let b = s.busy_links();
                    if b.is_empty() {
                        if cfg.lazy {
                            Act::Take(i)
                        } else {
                            Act::Tick(i)
                        }
                    } else {
                        if r.chance(1, 20) {
                            focus = (0..2).map(|_| *r.pick(&b)).collect();
                        }
                        let f: Vec<_> = b.iter().filter(|x| focus.contains(x)).cloned().collect();
                        let (f, t) = if !f.is_empty() && r.chance(1, 2) { *r.pick(&f) } else { *r.pick(&b) };
                        Act::Deliver(f, t)
                    }
                }
                1 => Act::Take(i),
                2 => Act::Tick(i),
                3 => Act::Append(if r.chance(2, 3) { leader.unwrap_or(i) } else { i }),
                4 => Act::Lead(i),
                5 => Act::Crash(i),
                6 => Act::Arm(i, r.below(4) as u8),
                7 => {
                    let down: Vec<u8> = (0..n as u8).filter(|i| !s.up(*i)).collect();
                    if down.is_empty() {
                        continue;
                    }
                    let d = *r.pick(&down);
                    Act::Recover(d)
                }
                8 => Act::Reconn(i, j),
                9 => {
                    if r.chance(1, 2) {
                        cuts.push((j, i));
                        cuts.push((i, j));
                        script.push(Act::Cut(j, i));
                    } else {
                        cuts.push((i, j));
                    }
                    Act::Cut(i, j)
                }
                10 => match cuts.pop() {
                    Some((a, b)) => {
                        if r.chance(2, 3) {
                            script.push(Act::Reconn(a, b));
                            script.push(Act::Reconn(b, a));
                        }
                        Act::Heal(a, b)
                    }
                    None => continue,
                },
                11 => {
                    let b = s.busy_links();
                    if b.is_empty() {
                        continue;
                    }
                    let (f, t) = *r.pick(&b);
                    Act::Drop(f, t)
                }
                12 => {
                    let x = if r.chance(1, 3) { 255 } else { r.below(200) as u8 };
                    if T::SNAP {
                        Act::Snap(i, x, r.chance(1, 2))
                    } else {
                        Act::Trim(leader.unwrap_or(i), x)
                    }
                }
                13 => Act::Reconf(if r.chance(1, 2) { leader.unwrap_or(i) } else { i }),
                _ => Act::Read(i, r.below(200) as u8, r.below(200) as u8),
            }
        };
        acts.push(a);
        s.exec(a);
    }
    Outcome { cfg, acts, viol: std::mem::take(&mut s.viol), stats: s.stats }
}

pub fn replay<T: SE>(cfg: &Cfg, acts: &[Act]) -> Vec<Violation> {
    let mut s = Sim::<T>::new(cfg, u64::MAX);
    for a in acts {
        s.exec(*a);
        if s.dead {
            break;
        }
    }
    let v = std::mem::take(&mut s.viol);
    drop(s);
    reset_dbs();
    v
}

pub fn reset_dbs() {
    crate::reset_mock();
}
