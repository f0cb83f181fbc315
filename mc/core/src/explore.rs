//! Deviation-bounded exhaustive exploration of choice sequences.
//! A run replays a prefix of choices and takes choice 0 (the default answer) afterwards; every other
//! choice is one deviation. All sequences with at most `bound` deviations are run, exactly once each.

pub struct Ch {
    prefix: Vec<usize>,
    pub trace: Vec<(usize, usize, bool)>, // (arity, choice, free)
}

impl Ch {
    pub fn replay(prefix: Vec<usize>) -> Self {
        Ch { prefix, trace: vec![] }
    }
    fn step(&mut self, n: usize, free: bool) -> usize {
        let i = self.trace.len();
        let c = self.prefix.get(i).copied().unwrap_or(0);
        assert!(c < n, "replay diverged: choice {c} of {n} at point {i}");
        self.trace.push((n, c, free));
        c
    }
    /// one of n, 0 being the default; any other costs one deviation
    pub fn pick(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.step(n, false)
    }
    /// one of n, all explored whatever the bound
    pub fn free(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.step(n, true)
    }
    pub fn choices(&self) -> Vec<usize> {
        self.trace.iter().map(|t| t.1).collect()
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub runs: u64,
    pub points: u64,
    pub capped: bool,
    pub bound: usize,
}

pub fn explore(bound: usize, cap: u64, f: &mut dyn FnMut(&mut Ch)) -> Stats {
    let mut st = Stats { bound, ..Default::default() };
    let mut stack: Vec<(Vec<usize>, usize)> = vec![(vec![], 0)];
    while let Some((prefix, cost)) = stack.pop() {
        if st.runs >= cap {
            st.capped = true;
            break;
        }
        let plen = prefix.len();
        let mut ch = Ch::replay(prefix);
        f(&mut ch);
        assert!(ch.trace.len() >= plen, "replay diverged: prefix not consumed");
        st.runs += 1;
        st.points += (ch.trace.len() - plen) as u64 + 1;
        for i in (plen..ch.trace.len()).rev() {
            let (n, _, free) = ch.trace[i];
            let c = if free { cost } else { cost + 1 };
            if c > bound {
                continue;
            }
            for alt in (1..n).rev() {
                let mut p: Vec<usize> = ch.trace[..i].iter().map(|t| t.1).collect();
                p.push(alt);
                stack.push((p, c));
            }
        }
    }
    st
}

/// largest bound <= max whose exploration fits in `cap` runs (counted by running with a no-op body)
pub fn fit_bound(max: usize, cap: u64, f: &mut dyn FnMut(&mut Ch)) -> usize {
    let mut b = 0;
    for k in 1..=max {
        if explore(k, cap, f).capped {
            break;
        }
        b = k;
    }
    b
}
