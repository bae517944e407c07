//! Enumeration of statement forests: every program body up to a number of nodes.

/// `leaves`: whole statements; `nodes`: templates with `@` for each nested body.
/// Returns forests[k] = every body with exactly k nodes, simplest first.
pub fn forests(leaves: &[String], nodes: &[&str], max: usize) -> Vec<Vec<String>> {
    let mut f: Vec<Vec<String>> = vec![vec![String::new()]];
    let mut t: Vec<Vec<String>> = vec![vec![]];
    for n in 1..=max {
        // trees of exactly n nodes
        let mut tn: Vec<String> = vec![];
        if n == 1 {
            tn.extend(leaves.iter().cloned());
        }
        for tpl in nodes {
            let holes = tpl.matches('@').count();
            splits(n - 1, holes, &mut vec![], &mut |sp| {
                let mut acc: Vec<Vec<&str>> = vec![vec![]];
                for k in sp {
                    let mut nx = vec![];
                    for a in &acc {
                        for b in &f[*k] {
                            let mut c = a.clone();
                            c.push(b.as_str());
                            nx.push(c);
                        }
                    }
                    acc = nx;
                }
                for a in acc {
                    let mut s = String::new();
                    let mut it = a.iter();
                    for (i, part) in tpl.split('@').enumerate() {
                        if i > 0 {
                            s.push_str(it.next().unwrap());
                        }
                        s.push_str(part);
                    }
                    tn.push(s);
                }
            });
        }
        t.push(tn);
        // forests: first tree of size k, rest of size n-k
        let mut fnn = vec![];
        for k in 1..=n {
            for a in &t[k] {
                for b in &f[n - k] {
                    fnn.push(if b.is_empty() { a.clone() } else { format!("{a} {b}") });
                }
            }
        }
        f.push(fnn);
    }
    f
}
fn splits(n: usize, holes: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
    if holes == 0 {
        if n == 0 {
            f(cur);
        }
        return;
    }
    let lo = if holes == 1 { n } else { 0 };
    for k in lo..=n {
        cur.push(k);
        splits(n - k, holes - 1, cur, f);
        cur.pop();
    }
}
