//! P02, P03, P06, P20, P22, P23: structure, views, clones, text, purity, lifetimes.
use crate::core::*;
use crate::gen::*;
use crate::m3::*;
use crate::ops::*;
use crate::p_fk::{both, check_vel, ref_velocities};
use crate::sc::*;
use k::{Chain, Node, NodeBuilder, SerialChain};
use std::collections::BTreeSet;
use std::sync::Arc;

fn sample<T: Sc>(cx: &mut Cx, w: &World<T>) {
    let d = w.describe();
    let mut e = d.len().min(600);
    while !d.is_char_boundary(e) {
        e -= 1;
    }
    cx.sample = Some(d[..e].to_string());
}

// ------------------------------------------------------------------ P02

fn check_view<T: Sc>(cx: &mut Cx, w: &World<T>, c: &Chain<T>, want: &[usize], ordered: bool, d: &str) -> Vec<usize> {
    let idx = chain_idx(w, c);
    if ordered {
        if idx != want {
            violation(format!("{}: the chain is {:?} instead of {:?}", d, idx, want));
        }
    } else {
        let a: BTreeSet<usize> = idx.iter().copied().collect();
        let b: BTreeSet<usize> = want.iter().copied().collect();
        if a != b || idx.len() != want.len() {
            violation(format!(
                "{}: the chain has the nodes {:?} instead of {:?}",
                d, idx, want
            ));
        }
        for (p, i) in idx.iter().enumerate() {
            if let Some(q) = w.s.n[*i].parent {
                if idx[p..].contains(&q) {
                    violation(format!("{}: node {} comes before its parent {}", d, i, q));
                }
            }
        }
    }
    let mov: Vec<usize> = idx.iter().copied().filter(|i| w.movable(*i)).collect();
    if c.dof() != mov.len() {
        violation(format!("{}: dof() is {}, not {}", d, c.dof(), mov.len()));
    }
    let names: Vec<String> = c.iter_joints().map(|j| j.name.clone()).collect();
    let want_names: Vec<String> = mov.iter().map(|i| w.s.n[*i].name.clone()).collect();
    if names != want_names {
        violation(format!(
            "{}: iter_joints() gives {:?} instead of {:?}",
            d, names, want_names
        ));
    }
    let links: Vec<String> = c.iter_links().map(|l| l.name.clone()).collect();
    let want_links: Vec<String> = idx
        .iter()
        .filter_map(|i| w.s.n[*i].link.as_ref().map(|l| l.name.clone()))
        .collect();
    if links != want_links {
        violation(format!(
            "{}: iter_links() gives {:?} instead of {:?}",
            d, links, want_links
        ));
    }
    for i in &idx {
        let name = &w.s.n[*i].name;
        let first = idx.iter().find(|j| w.s.n[**j].name == *name);
        match c.find(name) {
            None => violation(format!("{}: find({:?}) finds nothing", d, name)),
            Some(n) => {
                if Some(&w.idx(n)) != first {
                    violation(format!(
                        "{}: find({:?}) is node {}, not {:?}",
                        d,
                        name,
                        w.idx(n),
                        first
                    ));
                }
            }
        }
        // names which are not there
        for m in [format!("{}x", name), format!(" {}", name), name.to_uppercase()] {
            if !idx.iter().any(|j| w.s.n[*j].name == m) && c.find(&m).is_some() {
                violation(format!("{}: find({:?}) finds a node", d, m));
            }
        }
    }
    cx.count("nodes of views checked", idx.len() as u64);
    idx
}

fn check_state<T: Sc>(cx: &mut Cx, w: &World<T>, views: &[(Arc<V<T>>, Vec<usize>, String)], model: &[T]) {
    for i in 0..w.len() {
        let want = if w.movable(i) { Some(model[i]) } else { None };
        let got = w.nodes[i].joint_position();
        let got2 = w.nodes[i].joint().joint_position();
        if got != want || got2 != want {
            violation(format!(
                "node {}: joint_position() is {:?}/{:?} after {:?} was set",
                i, got, got2, want
            ));
        }
        if iso_bits(&w.nodes[i].origin()) != iso_bits(&w.s.n[i].origin)
            || iso_bits(w.nodes[i].joint().origin()) != iso_bits(&w.s.n[i].origin)
        {
            violation(format!("node {}: origin() is not the one which was set", i));
        }
    }
    for (v, idx, d) in views {
        let want: Vec<T> = idx
            .iter()
            .filter(|i| w.movable(**i))
            .map(|i| model[*i])
            .collect();
        let got = v.c().joint_positions();
        if got != want {
            violation(format!(
                "{}: joint_positions() is {:?} instead of {:?}",
                d, got, want
            ));
        }
        let it: Vec<T> = v.c().iter_joints().filter_map(|j| j.joint_position()).collect();
        if it != want {
            violation(format!("{}: positions of iter_joints() are {:?} instead of {:?}", d, it, want));
        }
        for (n, i) in v.c().iter().zip(idx) {
            if n.joint_position() != if w.movable(*i) { Some(model[*i]) } else { None } {
                violation(format!("{}: position of node {} differs from {:?}", d, i, model[*i]));
            }
        }
        if let Some(f) = idx.first() {
            if iso_bits(&v.c().origin()) != iso_bits(&w.s.n[*f].origin) {
                violation(format!("{}: origin() is not that of node {}", d, f));
            }
        }
        cx.hit("views compared with the model");
    }
}

fn p02_t<T: Sc>(cx: &mut Cx) {
    let o = GenOpt {
        max: if cx.rng.p(0.05) { 60 } else { 20 },
        links: 0.5,
        unique_names: cx.rng.p(0.4),
        limits: 0.3,
        path: cx.rng.p(0.2),
        ..GenOpt::default()
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &o);
    if cx.rng.p(0.2) {
        gen_mimics(cx, &mut s, false);
    }
    let fixed_follower = s.mimic.iter().any(|m| s.n[m.0].kind == Kind::Fixed);
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let mut w = World::new(s);
    sample(cx, &w);
    if w.len() > 2 {
        cx.nontrivial();
    }
    let mut model: Vec<T> = w.s.n.iter().map(|n| n.pos).collect();
    let mut views = vec![];
    for _ in 0..cx.rng.range(2, 5) {
        let (v, want, ordered, d) = if cx.rng.p(0.15) {
            // any list of nodes
            let mut l: Vec<usize> = (0..w.len()).collect();
            cx.rng.shuffle(&mut l);
            l.truncate(cx.rng.below(w.len() + 1));
            let d = format!("from_nodes({:?})", l);
            (
                Arc::new(V::C(Chain::from_nodes(l.iter().map(|i| w.nodes[*i].clone()).collect()))),
                l,
                true,
                d,
            )
        } else {
            gen_view(&w, &mut cx.rng)
        };
        let idx = check_view(cx, &w, v.c(), &want, ordered, &d);
        if d.starts_with("from_root") {
            // serial exactly if no node has more than one child
            let serial = idx.iter().all(|i| w.children(*i).len() <= 1);
            let root = w.nodes[*idx.iter().min().unwrap_or(&0)].clone();
            match SerialChain::try_new(Chain::from_root(root)) {
                None => {
                    if serial {
                        violation(format!("{}: try_new rejects a serial chain {:?}", d, idx));
                    }
                    cx.hit("branching chains rejected");
                }
                Some(s) => {
                    if !serial {
                        violation(format!("{}: try_new accepts a branching chain {:?}", d, idx));
                    }
                    cx.hit("serial chains accepted");
                    let s_idx = check_view(cx, &w, &s, &want, ordered, "SerialChain::try_new");
                    let c = s.unwrap();
                    if chain_idx(&w, &c) != s_idx {
                        violation("SerialChain::unwrap() changes the chain".into());
                    }
                }
            }
        }
        views.push((v, idx, d));
    }
    check_state(cx, &w, &views, &model);
    for _ in 0..cx.rng.range(1, 8) {
        let mov: Vec<usize> = (0..w.len()).filter(|i| w.movable(*i)).collect();
        let legal = |cx: &mut Cx, w: &World<T>, i: usize| -> T {
            match w.s.n[i].limits {
                Some((a, b)) => {
                    let x = T::of(cx.rng.f(a.d(), b.d()));
                    if x < a {
                        a
                    } else if x > b {
                        b
                    } else {
                        x
                    }
                }
                None => T::of(cx.rng.f(-3.0, 3.0)),
            }
        };
        match cx.rng.below(6) {
            0 | 1 if !mov.is_empty() => {
                let i = *cx.rng.pick(&mov);
                let x = legal(cx, &w, i);
                // any handle of the same node
                let h: Node<T> = match cx.rng.below(4) {
                    0 => w.nodes[i].clone(),
                    1 => views
                        .iter()
                        .find_map(|(v, idx, _)| {
                            let p = idx.iter().position(|j| *j == i)?;
                            v.c().iter().nth(p).cloned()
                        })
                        .unwrap_or_else(|| w.nodes[i].clone()),
                    2 => match w.nodes[0].iter_descendants().find(|n| *n == w.nodes[i]) {
                        Some(n) => n,
                        None => violation(format!("node {} is not among the descendants of the root", i)),
                    },
                    _ => match w.nodes[i].iter_ancestors().next() {
                        Some(n) => n,
                        None => violation("a node is not its own first ancestor".into()),
                    },
                };
                let how = if fixed_follower { 1 + cx.rng.below(2) } else { cx.rng.below(3) };
                cx.t(|| format!("set node {} <- {} ({})", i, x.d(), how));
                match how {
                    0 => {
                        if let Err(e) = h.set_joint_position(x) {
                            violation(format!("set_joint_position({}) of node {}: {}", x.d(), i, e));
                        }
                    }
                    1 => h.set_joint_position_clamped(x),
                    _ => h.set_joint_position_unchecked(x),
                }
                model[i] = x;
            }
            2 | 3 => {
                let k = cx.rng.below(views.len());
                let idx: Vec<usize> = views[k].1.iter().copied().filter(|i| w.movable(*i)).collect();
                let xs: Vec<T> = idx.iter().map(|i| legal(cx, &w, *i)).collect();
                let how = if fixed_follower { 1 + cx.rng.below(2) } else { cx.rng.below(3) };
                cx.t(|| format!("{} set joints {:?} ({})", views[k].2, idx, how));
                match how {
                    0 => {
                        if let Err(e) = views[k].0.c().set_joint_positions(&xs) {
                            violation(format!("set_joint_positions of {}: {}", views[k].2, e));
                        }
                    }
                    1 => views[k].0.c().set_joint_positions_clamped(&xs),
                    _ => views[k].0.c().set_joint_positions_unchecked(&xs),
                }
                for (i, x) in idx.iter().zip(&xs) {
                    model[*i] = *x;
                }
                cx.hit("position vectors written");
            }
            4 => {
                let i = cx.rng.below(w.len());
                let o = gen_origin(&mut cx.rng);
                w.nodes[i].set_origin(o);
                w.s.n[i].origin = o;
            }
            5 if w.s.mimic.is_empty() && w.len() > 1 && cx.rng.p(0.5) => {
                // chains made before keep their nodes
                let i = cx.rng.range(1, w.len() - 1);
                let p = cx.rng.below(i);
                cx.t(|| format!("connect node {} to node {}", i, p));
                w.reparent(i, p);
                cx.hit("nodes connected to another parent");
            }
            _ => {
                let k = cx.rng.below(views.len());
                if let Some(f) = views[k].1.first().copied() {
                    let o = gen_origin(&mut cx.rng);
                    views[k].0.c().set_origin(o);
                    w.s.n[f].origin = o;
                }
            }
        }
        // where a follower goes is decided by P05, here it must be the same place in every view
        for m in &w.s.mimic {
            if let Some(x) = w.nodes[m.0].joint_position() {
                model[m.0] = x;
            }
            cx.hit("followers read again");
        }
        check_state(cx, &w, &views, &model);
    }
    for (v, idx, d) in &views {
        check_view(cx, &w, v.c(), idx, true, d);
    }
}
pub fn p02(cx: &mut Cx) {
    both(cx, p02_t::<f64>, p02_t::<f32>)
}

// ------------------------------------------------------------------ P03

/// nodes are told apart by their origins, names need not be unique
fn node_no(n: &Node<f64>) -> usize {
    n.origin().translation.vector.x as usize
}

struct Forest {
    parent: Vec<Option<usize>>,
    children: Vec<Vec<usize>>,
    handle: Vec<Option<Node<f64>>>,
    dead: Vec<bool>,
}

impl Forest {
    fn below(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        let mut k = 0;
        while k < v.len() {
            v.extend(&self.children[v[k]]);
            k += 1;
        }
        v
    }
    /// nodes die with their last handle and parent
    fn bury(&mut self) {
        loop {
            let mut any = false;
            for i in 0..self.dead.len() {
                if !self.dead[i] && self.handle[i].is_none() && self.parent[i].is_none() {
                    self.dead[i] = true;
                    any = true;
                    for c in std::mem::take(&mut self.children[i]) {
                        self.parent[c] = None;
                    }
                }
            }
            if !any {
                break;
            }
        }
    }
    fn get(&self, i: usize) -> Node<f64> {
        if let Some(n) = &self.handle[i] {
            return n.clone();
        }
        // by the way from a held ancestor
        let mut top = i;
        while self.handle[top].is_none() {
            top = match self.parent[top] {
                Some(p) => p,
                None => harness_error("no way to a living node".into()),
            };
        }
        let found = self.handle[top]
            .as_ref()
            .and_then(|n| n.iter_descendants().find(|d| node_no(d) == i));
        match found {
            Some(n) => n,
            None => violation(format!("node {} is not among the descendants of {}", i, top)),
        }
    }
    fn check(&self, cx: &mut Cx) {
        let name = |n: &Node<f64>| node_no(n).to_string();
        for i in 0..self.dead.len() {
            if self.dead[i] {
                continue;
            }
            let n = self.get(i);
            let p = n.parent().map(|p| name(&p));
            if p != self.parent[i].map(|p| p.to_string()) {
                violation(format!(
                    "parent() of {} is {:?} instead of {:?}",
                    i, p, self.parent[i]
                ));
            }
            let c: Vec<String> = {
                let v: Vec<Node<f64>> = n.children().clone();
                v.iter().map(name).collect()
            };
            let want: Vec<String> = self.children[i].iter().map(|c| c.to_string()).collect();
            if c != want {
                violation(format!("children() of {} are {:?} instead of {:?}", i, c, want));
            }
            if n.is_root() != self.parent[i].is_none() {
                violation(format!("is_root() of {} is {}", i, n.is_root()));
            }
            if n.is_end() != self.children[i].is_empty() {
                violation(format!("is_end() of {} is {}", i, n.is_end()));
            }
            let a: Vec<String> = n.iter_ancestors().map(|x| name(&x)).collect();
            let mut want = vec![i];
            while let Some(p) = self.parent[want[want.len() - 1]] {
                want.push(p);
            }
            let want: Vec<String> = want.iter().map(|c| c.to_string()).collect();
            if a != want {
                violation(format!("ancestors of {} are {:?} instead of {:?}", i, a, want));
            }
            let d: Vec<String> = n.iter_descendants().map(|x| name(&x)).collect();
            let below = self.below(i);
            let s: BTreeSet<&String> = d.iter().collect();
            let bw: Vec<String> = below.iter().map(|c| c.to_string()).collect();
            let b: BTreeSet<&String> = bw.iter().collect();
            if d.len() != below.len() || s != b {
                violation(format!("descendants of {} are {:?} instead of {:?}", i, d, bw));
            }
            for (k, x) in d.iter().enumerate().skip(1) {
                let x: usize = match x.parse() {
                    Ok(x) => x,
                    Err(_) => violation("unknown node".into()),
                };
                let p = self.parent[x].map(|p| p.to_string());
                if !d[..k].iter().any(|y| Some(y) == p.as_ref()) {
                    violation(format!("descendants of {}: {} comes before its parent", i, x));
                }
            }
            if let Some(h) = &self.handle[i] {
                if let Some(p) = self.parent[i] {
                    let pn = self.get(p);
                    if !pn.children().iter().any(|c| c == h) {
                        violation(format!("the parent of {} lists another node", i));
                    }
                }
            }
            cx.hit("nodes compared with the model");
        }
        if cx.rng.p(0.2) {
            // several subtrees at once
            let mut tops: Vec<usize> = vec![];
            for i in 0..self.dead.len() {
                if !self.dead[i] && cx.rng.p(0.3) {
                    let b = self.below(i);
                    if !tops.iter().any(|t| b.contains(t) || self.below(*t).contains(&i)) {
                        tops.push(i);
                    }
                }
            }
            let stack: Vec<Node<f64>> = tops.iter().map(|i| self.get(*i)).collect();
            let mut got: Vec<usize> = k::iterator::Descendants::new(stack).map(|n| node_no(&n)).collect();
            let mut want: Vec<usize> = tops.iter().flat_map(|i| self.below(*i)).collect();
            got.sort_unstable();
            want.sort_unstable();
            if got != want {
                violation(format!("the descendants of {:?} are {:?} instead of {:?}", tops, got, want));
            }
            if let Some(i) = tops.first() {
                let n = self.get(*i);
                let a: Vec<usize> = k::iterator::Ancestors::new(Some(n.clone())).map(|n| node_no(&n)).collect();
                let b: Vec<usize> = n.iter_ancestors().map(|n| node_no(&n)).collect();
                if a != b {
                    violation(format!("Ancestors::new of {} gives {:?} instead of {:?}", i, a, b));
                }
            }
            let mut none = k::iterator::Ancestors::<f64>::new(None);
            if none.next().is_some() || none.next().is_some() {
                violation("the ancestors of nothing are not empty".into());
            }
            cx.hit("iterators made from several nodes");
        }
    }
}

pub fn p03(cx: &mut Cx) {
    let mut f = Forest {
        parent: vec![],
        children: vec![],
        handle: vec![],
        dead: vec![],
    };
    let names = cx.rng.below(3);
    // without drops of handles, but with mimic relations, which must not matter
    let with_mimics = cx.rng.p(0.2);
    let mut mimics: Vec<(usize, usize)> = vec![];
    let add = |f: &mut Forest, cx: &mut Cx| {
        let i = f.dead.len();
        let name = match names {
            0 => i.to_string(),
            1 => gen_name(&mut cx.rng, i, false),
            _ => String::new(),
        };
        let b = NodeBuilder::<f64>::new()
            .name(&name)
            .translation(k::Translation3::new(i as f64, 0.5, 0.0));
        let n = match i % 3 {
            0 => b.into_node(),
            _ => b
                .joint_type(k::JointType::Rotational {
                    axis: k::Vector3::z_axis(),
                })
                .into_node(),
        };
        f.parent.push(None);
        f.children.push(vec![]);
        f.handle.push(Some(n));
        f.dead.push(false);
    };
    let mut log = String::new();
    // now and then a large forest, all but complete when it is compared for the first time
    let large = cx.rng.p(0.005);
    let start = if large { cx.rng.range(20, 80) } else { cx.rng.range(2, 12) };
    for _ in 0..start {
        add(&mut f, cx);
    }
    if large {
        let shape = gen_shape(&mut cx.rng, start, false);
        for (c, p) in shape.iter().enumerate() {
            if let Some(p) = *p {
                f.get(c).set_parent(&f.get(p));
                f.parent[c] = Some(p);
                f.children[p].push(c);
                log += &format!("{}<{} ", p, c);
            }
        }
        cx.hit("large forests");
        f.check(cx);
    }
    let steps = if large {
        cx.rng.range(1, 6)
    } else if cx.rng.p(0.001) {
        cx.hit("histories of more than 300 steps");
        cx.rng.range(300, 900)
    } else {
        cx.rng.range(3, 40)
    };
    let (mut removed, mut reconnected) = (0, 0);
    for _ in 0..steps {
        let alive: Vec<usize> = (0..f.dead.len()).filter(|i| !f.dead[*i]).collect();
        if alive.is_empty() {
            break;
        }
        match cx.rng.below(10) {
            0..=4 => {
                // connect a parentless node
                let free: Vec<usize> = alive.iter().copied().filter(|i| f.parent[*i].is_none()).collect();
                if free.is_empty() {
                    continue;
                }
                let c = *cx.rng.pick(&free);
                let below = f.below(c);
                let ps: Vec<usize> = alive.iter().copied().filter(|i| !below.contains(i)).collect();
                if ps.is_empty() {
                    continue;
                }
                let p = *cx.rng.pick(&ps);
                cx.t(|| format!("{} under {}", c, p));
                log += &format!("{}<{} ", p, c);
                let (cn, pn) = (f.get(c), f.get(p));
                if cx.rng.p(0.2) {
                    k::connect![pn => cn];
                } else {
                    cn.set_parent(&pn);
                }
                f.parent[c] = Some(p);
                f.children[p].push(c);
                reconnected += u64::from(removed > 0);
            }
            5 => {
                // connect! with several nodes
                let free: Vec<usize> = alive.iter().copied().filter(|i| f.parent[*i].is_none()).collect();
                if free.len() < 3 {
                    continue;
                }
                let mut l = free;
                cx.rng.shuffle(&mut l);
                let n = cx.rng.range(3, 6).min(l.len());
                l.truncate(n);
                cx.t(|| format!("connect {:?}", l));
                log += &format!("{:?} ", l);
                let v: Vec<Node<f64>> = l.iter().map(|i| f.get(*i)).collect();
                match n {
                    3 => {
                        k::connect![v[0] => v[1] => v[2]];
                    }
                    4 => {
                        k::connect![v[0] => v[1].clone() => v[2] => v[3]];
                    }
                    5 => {
                        k::connect![v[0] => v[1] => v[2] => v[3] => v[4]];
                    }
                    _ => {
                        k::connect![v[0] => v[1] => v[2] => v[3] => v[4] => v[5]];
                    }
                }
                for x in l.windows(2) {
                    f.parent[x[1]] = Some(x[0]);
                    f.children[x[0]].push(x[1]);
                }
            }
            6 | 7 => {
                let with: Vec<usize> = alive.iter().copied().filter(|i| f.parent[*i].is_some()).collect();
                if with.is_empty() {
                    continue;
                }
                let c = *cx.rng.pick(&with);
                let p = match f.parent[c] {
                    Some(p) => p,
                    None => continue,
                };
                cx.t(|| format!("remove {} from {}", c, p));
                log += &format!("{}!{} ", p, c);
                let (cn, pn) = (f.get(c), f.get(p));
                cn.remove_parent(&pn);
                f.children[p].retain(|x| *x != c);
                f.parent[c] = None;
                f.handle[c] = Some(cn); // keep it
                removed += 1;
            }
            8 => {
                let with: Vec<usize> = alive.iter().copied().filter(|i| f.handle[*i].is_some()).collect();
                if with.len() < 2 || cx.rng.p(0.3) {
                    continue;
                }
                let c = *cx.rng.pick(&with);
                if with_mimics {
                    // only joints with a smaller number lead: there are no circles
                    let l = *cx.rng.pick(&with);
                    if l < c {
                        let (cn, ln) = (f.get(c), f.get(l));
                        cx.t(|| format!("{} mimics {}", c, l));
                        cn.set_mimic_parent(&ln, k::joint::Mimic::new(0.5, 0.25));
                        mimics.retain(|m| m.0 != c);
                        mimics.push((c, l));
                        cx.hit("mimic relations set");
                    }
                    continue;
                }
                cx.t(|| format!("drop the handle of {}", c));
                log += &format!("-{} ", c);
                f.handle[c] = None;
                f.bury();
                cx.hit("handles dropped");
            }
            _ => {
                if f.dead.len() < 20 {
                    add(&mut f, cx);
                }
            }
        }
        f.check(cx);
        for (c, l) in &mimics {
            let m = f.get(*c).mimic_parent().map(|n| node_no(&n));
            if m != Some(*l) {
                violation(format!("{} mimics {:?} instead of {}", c, m, l));
            }
        }
        cx.hit("steps");
    }
    // a circle of a leader above its follower which became its ancestor would be a leak: P23
    for (c, _) in mimics {
        let other = NodeBuilder::<f64>::new().into_node();
        f.get(c).set_mimic_parent(&other, k::joint::Mimic::new(1.0, 0.0));
    }
    cx.count("disconnections", removed);
    cx.count("connections after a disconnection", reconnected);
    cx.fps(&log);
    if removed > 0 {
        cx.nontrivial();
    }
    cx.sample = Some(log);
}

// ------------------------------------------------------------------ P06

pub fn gen_mimics<T: Sc>(cx: &mut Cx, s: &mut Spec<T>, limits: bool) {
    let mov: Vec<usize> = (0..s.n.len()).filter(|i| s.n[*i].kind != Kind::Fixed).collect();
    if mov.len() < 2 {
        return;
    }
    // strong references go from parents to children and from leaders to followers, a cycle of
    // them is never released (a known finding)
    let reaches = |s: &Spec<T>, a: usize, b: usize| {
        let mut v = vec![a];
        let mut k = 0;
        while k < v.len() {
            let x = v[k];
            for j in 0..s.n.len() {
                let edge = s.n[j].parent == Some(x) || s.mimic.iter().any(|m| m.0 == j && m.1 == x);
                if edge && !v.contains(&j) {
                    v.push(j);
                }
            }
            k += 1;
        }
        v.contains(&b)
    };
    let mut leaders = vec![];
    for _ in 0..cx.rng.range(1, 3) {
        let l = *cx.rng.pick(&mov);
        if !leaders.contains(&l) {
            leaders.push(l);
        }
    }
    let with_fixed = cx.rng.p(0.1);
    for f in 0..s.n.len() {
        let fixed = s.n[f].kind == Kind::Fixed;
        if leaders.contains(&f) || cx.rng.p(0.5) || (fixed && !with_fixed) {
            continue;
        }
        let l = *cx.rng.pick(&leaders);
        if reaches(s, f, l) {
            continue;
        }
        let (m, o) = (
            *cx.rng.pick(&[1.0, -1.0, 0.0, 2.0, 0.5, -0.3]) * cx.rng.f(0.5, 1.5),
            *cx.rng.pick(&[0.0, 0.0, 1.0, -0.5]) * cx.rng.f(0.5, 1.5),
        );
        s.mimic.push((f, l, T::of(m), T::of(o)));
        if !limits {
            s.n[f].limits = None;
        }
    }
}

/// everything observable of the nodes of a chain, in terms of positions in the chain
fn chain_data<T: Sc>(nodes: &[Node<T>], mimic: bool) -> Vec<String> {
    let at = |n: &Node<T>| nodes.iter().position(|x| x == n);
    nodes
        .iter()
        .map(|n| {
            let children: Vec<Node<T>> = n.children().clone();
            let c: Vec<usize> = children.iter().filter_map(at).collect();
            let p = n.parent().and_then(|p| at(&p));
            let wt = n.world_transform().map(|t| iso_bits(&t));
            let wv = n.world_velocity().map(|v| {
                (
                    v3(&v.translation).map(f64::to_bits),
                    v3(&v.rotation).map(f64::to_bits),
                )
            });
            let m = if mimic {
                n.mimic_parent().and_then(|p| at(&p))
            } else {
                None
            };
            format!(
                "{} {} parent={:?} children={:?} mimic={:?} wt={:x?} wv={:x?}",
                node_data(n),
                link_data(n, true),
                p,
                c,
                m,
                wt,
                wv
            )
        })
        .collect()
}

fn first_diff(a: &[String], b: &[String]) -> String {
    if a.len() != b.len() {
        return format!("{} nodes against {}", a.len(), b.len());
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            return format!("node {}: {} against {}", i, x, y);
        }
    }
    "no difference".into()
}

/// any change through one of the nodes
fn poke<T: Sc>(cx: &mut Cx, nodes: &[Node<T>], c: &Chain<T>) {
    let i = cx.rng.below(nodes.len());
    let n = &nodes[i];
    let x = T::of(cx.rng.f(-1.0, 1.0));
    match cx.rng.below(12) {
        0 | 1 => {
            let _ = n.set_joint_position(x);
        }
        2 => n.set_joint_position_clamped(x),
        3 => {
            let xs: Vec<T> = (0..c.dof()).map(|_| T::of(cx.rng.f(-1.0, 1.0))).collect();
            match cx.rng.below(3) {
                0 => {
                    let _ = c.set_joint_positions(&xs);
                }
                1 => c.set_joint_positions_clamped(&xs),
                _ => c.set_joint_positions_unchecked(&xs),
            }
        }
        4 => n.set_origin(gen_origin(&mut cx.rng)),
        5 => n.set_link(if cx.rng.p(0.5) {
            Some(gen_link(&mut cx.rng, i))
        } else {
            None
        }),
        6 => {
            c.update_transforms();
        }
        7 => {
            c.update_velocities();
        }
        8 => c.update_link_transforms(),
        9 => {
            // a new child
            let m: Node<T> = NodeBuilder::new().name("new").into_node();
            m.set_parent(n);
        }
        10 => {
            if let Some(p) = n.parent() {
                n.remove_parent(&p);
            }
        }
        _ => {
            if let Some(p) = n.mimic_parent() {
                n.set_mimic_parent(&p, k::joint::Mimic::new(T::of(7.0), T::of(3.0)));
            }
        }
    }
}

fn p06_t<T: Sc>(cx: &mut Cx) {
    let o = GenOpt {
        max: 16,
        links: 0.4,
        unique_names: cx.rng.p(0.5),
        velocities: true,
        path: cx.rng.p(0.2),
        ..GenOpt::default()
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &o);
    if cx.rng.p(0.6) {
        gen_mimics(cx, &mut s, false);
    }
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let mut w = World::new(s);
    sample(cx, &w);
    history(cx, &mut w, ALL_R, 5);
    if cx.rng.p(0.01) {
        let none = Chain::<T>::from_nodes(vec![]).clone();
        if none.dof() != 0 || none.iter().count() + none.joint_positions().len() + none.update_transforms().len() != 0 {
            violation("a clone of a chain without nodes has some".into());
        }
        cx.hit("clones of a chain without nodes");
    }
    let i = cx.rng.below(w.len());
    let (v, d) = match cx.rng.below(5) {
        0 | 1 => (V::C(Chain::from_root(w.nodes[0].clone())), "from_root".to_string()),
        2 => (V::C(Chain::from_end(&w.nodes[i])), format!("from_end({})", i)),
        3 => (
            V::S(SerialChain::from_end(&w.nodes[i])),
            format!("SerialChain::from_end({})", i),
        ),
        _ => {
            let mut front = vec![0];
            let mut list = vec![];
            while !front.is_empty() {
                let c = front.swap_remove(cx.rng.below(front.len()));
                list.push(c);
                for d in w.children(c) {
                    if cx.rng.p(0.7) {
                        front.push(d);
                    }
                }
            }
            (
                V::C(Chain::from_nodes(list.iter().map(|j| w.nodes[*j].clone()).collect())),
                format!("from_nodes({:?})", list),
            )
        }
    };
    let idx = chain_idx(&w, v.c());
    let on: Vec<Node<T>> = v.c().iter().cloned().collect();
    let before = chain_data(&on, true);
    let all_before = chain_data(&w.nodes, true);
    let clone = |v: &V<T>| match v {
        V::C(c) => V::C(c.clone()),
        V::S(s) => V::S(s.clone()),
    };
    let mut copy: V<T> = clone(&v);
    if cx.rng.p(0.1) {
        // copies of copies
        for _ in 0..cx.rng.range(1, 3) {
            copy = clone(&copy);
        }
        cx.hit("clones of clones");
    }
    cx.t(|| format!("clone of {}", d));
    let cn: Vec<Node<T>> = copy.c().iter().cloned().collect();
    if chain_data(&w.nodes, true) != all_before {
        violation(format!("{}: cloning changes the original", d));
    }
    let after = chain_data(&cn, true);
    if before != after {
        violation(format!("{}: the clone differs: {}", d, first_diff(&before, &after)));
    }
    if copy.c().dof() != v.c().dof() || copy.c().joint_positions() != v.c().joint_positions() {
        violation(format!("{}: the clone has other joint positions", d));
    }
    for c in &cn {
        if w.nodes.contains(c) {
            violation(format!("{}: the clone shares a node with the original", d));
        }
        let children: Vec<Node<T>> = c.children().clone();
        for x in &children {
            if !cn.contains(x) {
                violation(format!("{}: a child of a cloned node is not cloned", d));
            }
        }
        if let Some(p) = c.parent() {
            if !cn.contains(&p) {
                violation(format!("{}: the parent of a cloned node is not cloned", d));
            }
        }
        if let Some(p) = c.mimic_parent() {
            if !cn.contains(&p) {
                violation(format!("{}: a clone mimics a joint of the original", d));
            }
        }
    }
    cx.count("cloned nodes compared", cn.len() as u64);
    // the same moves have the same effect on both, including the joints which mimic
    let a_leads: Vec<(usize, usize, T, T)> = w
        .s
        .mimic
        .iter()
        .filter(|(f, l, _, _)| idx.contains(f) && idx.contains(l))
        .copied()
        .collect();
    if !a_leads.is_empty() {
        let (_, l, _, _) = *cx.rng.pick(&a_leads);
        let li = idx.iter().position(|x| *x == l).unwrap_or(0);
        let old: Vec<Option<T>> = cn.iter().map(|n| n.joint_position()).collect();
        let x = rand_pos(cx, &w, l);
        if cn[li].set_joint_position(x).is_ok() {
            for (k, n) in cn.iter().enumerate() {
                let m = w.s.mimic.iter().rev().find(|m| m.0 == idx[k] && m.1 == l);
                let want = match m {
                    Some((_, _, mu, of)) => Some(mu.d() * x.d() + of.d()),
                    None if k == li => Some(x.d()),
                    None => old[k].map(|x| x.d()),
                };
                let got = n.joint_position().map(|x| x.d());
                let same = match (got, want) {
                    (Some(g), Some(w)) => (g - w).abs() <= 8.0 * T::EPS * (1.0 + w.abs() + x.d().abs() * 4.0),
                    (None, None) => true,
                    _ => false,
                };
                if !same {
                    violation(format!(
                        "{}: after the leader {} of the clone moved to {}, joint {} is at {:?}, not {:?}",
                        d, l, x.d(), idx[k], got, want
                    ));
                }
            }
            cx.hit("mimic relations of clones exercised");
        }
        if chain_data(&w.nodes, true) != all_before {
            violation(format!("{}: moving the clone changes the original", d));
        }
    }
    // changes of one are not seen through the other
    let pokes = cx.rng.range(1, 8);
    let side = cx.rng.p(0.5);
    let (a, ac, b) = if side {
        (&cn, copy.c(), &w.nodes)
    } else {
        (&on, v.c(), &cn)
    };
    let snap = chain_data(b, true);
    for _ in 0..pokes {
        poke(cx, a, ac);
    }
    let snap2 = chain_data(b, true);
    if snap != snap2 {
        violation(format!(
            "{}: changing the {} changes the other: {}",
            d,
            if side { "clone" } else { "original" },
            first_diff(&snap, &snap2)
        ));
    }
    cx.count("pokes", pokes as u64);
    // one survives the other
    let q: Vec<f64> = cn
        .iter()
        .map(|n| n.joint_position().map(|x| x.d()).unwrap_or(0.0))
        .collect();
    if !side {
        drop(v);
        drop(on);
        let ww = World::with(
            Spec {
                n: w.s.n.clone(),
                order: w.s.order.clone(),
                mimic: vec![],
            },
            vec![],
        );
        drop(w);
        let mut full = vec![0.0; ww.s.n.len()];
        for (k, i) in idx.iter().enumerate() {
            full[*i] = q[k];
        }
        let mut fk = vec![];
        for i in 0..ww.s.n.len() {
            let l = ww.local(i, full[i]);
            fk.push(match ww.s.n[i].parent {
                None => l,
                Some(p) => Pose::mul(&fk[p], &l),
            });
        }
        let got = copy.c().update_transforms();
        if got.len() != idx.len() {
            violation(format!("{}: the clone lost nodes when the original was dropped", d));
        }
        for (g, i) in got.iter().zip(&idx) {
            ww.check_pose("clone after the original was dropped", *i, g, &fk[*i], &full);
        }
        cx.hit("clones used after the original was dropped");
    } else {
        drop(copy);
        drop(cn);
        let q = w.positions();
        let fk = w.fk(&q);
        let got = v.c().update_transforms();
        for (g, i) in got.iter().zip(&idx) {
            w.check_pose("original after the clone was dropped", *i, g, &fk[*i], &q);
        }
        cx.hit("originals used after the clone was dropped");
    }
    if idx.len() > 2 {
        cx.nontrivial();
    }
}
pub fn p06(cx: &mut Cx) {
    both(cx, p06_t::<f64>, p06_t::<f32>)
}

// ------------------------------------------------------------------ P20

#[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Clone)]
struct Txt {
    s: String,
    c: Vec<Txt>,
}

fn parse(lines: &[(usize, String)], at: &mut usize, depth: usize, out: &mut Vec<Txt>) {
    while *at < lines.len() && lines[*at].0 == depth {
        let s = lines[*at].1.clone();
        *at += 1;
        let mut c = vec![];
        parse(lines, at, depth + 1, &mut c);
        c.sort();
        out.push(Txt { s, c });
    }
}

fn line_text<T: Sc>(w: &World<T>, i: usize) -> String {
    let s = &w.s.n[i];
    let a = w.axis(i);
    let mut ax = "";
    for (k, (p, m)) in [("+X", "-X"), ("+Y", "-Y"), ("+Z", "-Z")].iter().enumerate() {
        let mut e = [0.0; 3];
        e[k] = 1.0;
        if a == e {
            ax = p;
        }
        e[k] = -1.0;
        if a == e {
            ax = m;
        }
    }
    let sym = match s.kind {
        Kind::Fixed => "[⚓]".to_string(),
        Kind::Rot => format!("[⚙{}]", ax),
        Kind::Lin => format!("[↕{}]", ax),
    };
    match &s.link {
        Some(l) => format!("{} {} => /{}/", s.name, sym, l.name),
        None => format!("{} {}", s.name, sym),
    }
}

fn want_txt<T: Sc>(w: &World<T>, i: usize, inside: &[usize]) -> Txt {
    let mut c: Vec<Txt> = w
        .children(i)
        .into_iter()
        .filter(|c| inside.contains(c))
        .map(|c| want_txt(w, c, inside))
        .collect();
    c.sort();
    Txt {
        s: line_text(w, i),
        c,
    }
}

fn p20_t<T: Sc>(cx: &mut Cx) {
    let o = GenOpt {
        max: if cx.rng.p(0.05) { 100 } else { 20 },
        links: 0.4,
        unique_names: cx.rng.p(0.5),
        fixed: 0.3,
        path: cx.rng.p(0.1),
        ..GenOpt::default()
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &o);
    for n in &mut s.n {
        // principal axes are frequent in practice
        if cx.rng.p(0.4) {
            n.axis = match cx.rng.below(6) {
                0 => k::Vector3::x_axis(),
                1 => k::Vector3::y_axis(),
                2 => k::Vector3::z_axis(),
                3 => -k::Vector3::x_axis(),
                4 => -k::Vector3::y_axis(),
                _ => -k::Vector3::z_axis(),
            };
        }
        if let Some(l) = &mut n.link {
            if cx.rng.p(0.2) {
                l.name = ["", "base link", "足", "/a/b"][cx.rng.below(4)].into();
            }
        }
    }
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let mut w = World::new(s);
    w.gaps = false;
    w.keep = cx.rng.p(0.7);
    history(cx, &mut w, ALL_R, 3);
    for _ in 0..3 {
        let (v, _, _, d) = gen_view(&w, &mut cx.rng);
        let idx = chain_idx(&w, v.c());
        let text = match &*v {
            V::C(c) => format!("{}", c),
            V::S(s) => {
                let a = format!("{}", s);
                let b = format!("{}", **s);
                if a != b {
                    violation(format!("{}: serial chain prints {:?}, chain prints {:?}", d, a, b));
                }
                a
            }
        };
        cx.sample = Some(text.clone());
        cx.t(|| format!("{}:\n{}", d, text));
        if !text.ends_with('\n') {
            violation(format!("{}: the last line does not end: {:?}", d, text));
        }
        let mut lines = vec![];
        for l in text.lines() {
            let t = l.trim_start_matches("    ");
            // a name may be empty, then a blank precedes the symbol
            let n = l.len() - t.len();
            lines.push((n / 4, t.to_string()));
        }
        if lines.len() != idx.len() {
            violation(format!(
                "{}: {} lines for {} nodes:\n{}",
                d,
                lines.len(),
                idx.len(),
                text
            ));
        }
        let mut at = 0;
        let mut got = vec![];
        parse(&lines, &mut at, 0, &mut got);
        let want = want_txt(&w, idx[0], &idx);
        if at != lines.len() || got.len() != 1 || got[0] != want {
            violation(format!(
                "{}: the text does not show the chain {:?}:\n{}",
                d, want, text
            ));
        }
        cx.count("lines compared", lines.len() as u64);
        if idx.len() < w.len() {
            cx.hit("partial chains");
        }
        if idx.len() > 2 {
            cx.nontrivial();
        }
    }
    // nodes, joints and joint types on their own
    let i = cx.rng.below(w.len());
    let t = format!("{}", w.nodes[i]);
    if t != line_text(&w, i) {
        violation(format!("node {} prints {:?} instead of {:?}", i, t, line_text(&w, i)));
    }
    let empty = Chain::<T>::from_nodes(vec![]);
    if !format!("{}", empty).is_empty() {
        violation("a chain without nodes prints something".into());
    }
}
pub fn p20(cx: &mut Cx) {
    both(cx, p20_t::<f64>, p20_t::<f32>)
}

// ------------------------------------------------------------------ P22

struct QRes {
    nums: Vec<f64>,
    text: String,
}

const QUERIES: usize = 16;

fn query<T: Sc>(k: usize, v: &V<T>, w: &World<T>) -> Option<QRes> {
    let mut nums = vec![];
    let mut text = String::new();
    let iso = |nums: &mut Vec<f64>, t: &k::Isometry3<T>| {
        nums.extend(v3(&t.translation.vector));
        nums.extend(quat(&t.rotation));
    };
    let c = v.c();
    match k {
        0 => {
            for t in c.update_transforms() {
                iso(&mut nums, &t);
            }
        }
        1 => {
            for x in c.update_velocities() {
                nums.extend(v3(&x.translation));
                nums.extend(v3(&x.rotation));
            }
        }
        2 => {
            c.update_link_transforms();
            for l in c.iter_links() {
                if let Some(t) = l.inertial.world_transform() {
                    iso(&mut nums, t);
                }
                for x in &l.visuals {
                    if let Some(t) = x.world_transform() {
                        iso(&mut nums, t);
                    }
                }
                for x in &l.collisions {
                    if let Some(t) = x.world_transform() {
                        iso(&mut nums, t);
                    }
                }
            }
        }
        3 => match v {
            V::S(s) => iso(&mut nums, &s.end_transform()),
            V::C(_) => return None,
        },
        4 => match v {
            V::S(s) => {
                let j = k::jacobian(s);
                for r in 0..j.nrows() {
                    for c in 0..j.ncols() {
                        nums.push(j[(r, c)].d());
                    }
                }
            }
            V::C(_) => return None,
        },
        5 => {
            let m: f64 = c.iter_links().map(|l| l.inertial.mass.d()).sum();
            if m < 1e-3 {
                return None;
            }
            nums.extend(v3(&k::center_of_mass(c)));
        }
        6 => text = format!("{}", c),
        7 => nums.extend(c.joint_positions().iter().map(|x| x.d())),
        8 => {
            text = c
                .iter_joints()
                .map(|j| format!("{} {:x?}", j.name, j.joint_velocity().map(|x| x.bits())))
                .collect::<Vec<_>>()
                .join(",")
        }
        9 => text = c.iter_links().map(|l| link_text(&l, false)).collect::<Vec<_>>().join(","),
        10 => {
            text = w
                .s
                .n
                .iter()
                .map(|n| format!("{:?}", c.find(&n.name).map(|n| w.idx(n))))
                .collect()
        }
        11 => {
            if c.iter().next().map(|n| n.is_root()) != Some(true) {
                return None;
            }
            let d = c.clone();
            let n: Vec<Node<T>> = d.iter().cloned().collect();
            text = n.iter().map(node_data).collect::<Vec<_>>().join("\n");
            text += &format!("{}", d);
        }
        12 => {
            text = w
                .nodes
                .iter()
                .map(|n| {
                    format!(
                        "{:?} {:?} {:?}",
                        n.iter_ancestors().map(|x| w.idx(&x)).collect::<Vec<_>>(),
                        n.iter_descendants().map(|x| w.idx(&x)).collect::<Vec<_>>(),
                        (n.is_root(), n.is_end(), n.mimic_parent().map(|p| w.idx(&p)))
                    )
                })
                .collect()
        }
        13 => iso(&mut nums, &c.origin()),
        14 => {
            for n in &w.nodes {
                let t = n.joint().local_transform();
                iso(&mut nums, &t);
            }
        }
        _ => {
            text = format!("{} {:?}", c.dof(), c.iter().map(|n| w.idx(n)).collect::<Vec<_>>());
        }
    }
    Some(QRes { nums, text })
}

/// all data that is not a cache
fn world_data<T: Sc>(w: &World<T>) -> Vec<String> {
    w.nodes
        .iter()
        .map(|n| {
            let c: Vec<Node<T>> = n.children().clone();
            format!(
                "{} {} parent={:?} children={:?} mimic={:?}",
                node_data(n),
                link_data(n, false),
                n.parent().map(|p| w.idx(&p)),
                c.iter().map(|x| w.idx(x)).collect::<Vec<_>>(),
                n.mimic_parent().map(|p| w.idx(&p))
            )
        })
        .collect()
}

fn p22_t<T: Sc>(cx: &mut Cx) {
    let o = GenOpt {
        max: 16,
        links: 0.5,
        velocities: true,
        unique_names: cx.rng.p(0.5),
        ..GenOpt::default()
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &o);
    if cx.rng.p(0.4) {
        gen_mimics(cx, &mut s, false);
    }
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let mut w = World::new(s);
    sample(cx, &w);
    w.keep = cx.rng.p(0.7);
    history(cx, &mut w, ALL_R, 5);
    let data = world_data(&w);
    let mut views = vec![];
    for _ in 0..3 {
        let (v, _, _, d) = gen_view(&w, &mut cx.rng);
        views.push((v, d));
    }
    let e = cx.rng.below(w.len());
    views.push((Arc::new(V::S(SerialChain::from_end(&w.nodes[e]))), format!("from_end({})", e)));
    let mut first: Vec<Vec<Option<QRes>>> = (0..views.len())
        .map(|_| (0..QUERIES).map(|_| None).collect())
        .collect();
    let q = w.positions();
    let fk = w.fk(&q);
    let vel = ref_velocities(&w, &q);
    let reach = (0..w.len()).map(|i| w.reach(i, &q)).fold(1.0, f64::max);
    let vmax = 1.0 + w.s.n.iter().map(|n| n.vel.d().abs()).sum::<f64>();
    let tol = 8.0 * T::EPS * w.len() as f64;
    let mut repeated = 0;
    for _ in 0..cx.rng.range(8, 40) {
        let k = cx.rng.below(QUERIES);
        let vi = cx.rng.below(views.len());
        cx.t(|| format!("query {} of {}", k, views[vi].1));
        let caches = |w: &World<T>| -> Vec<_> {
            w.nodes.iter().map(|n| (n.world_transform(), n.world_velocity())).collect()
        };
        let before = caches(&w);
        let r = match query(k, &views[vi].0, &w) {
            Some(r) => r,
            None => continue,
        };
        // what a query leaves in a joint is the current pose and velocity
        for (i, (t, v)) in caches(&w).into_iter().enumerate() {
            match t {
                Some(t) if before[i].0.as_ref().map(iso_bits) != Some(iso_bits(&t)) => {
                    w.check_pose(&format!("left by query {} of {}", k, views[vi].1), i, &t, &fk[i], &q);
                    cx.hit("poses left by queries checked");
                }
                _ => {}
            }
            match v {
                Some(v) if before[i].1.as_ref().map(|x| format!("{:?}", x)) != Some(format!("{:?}", v)) => {
                    crate::p_fk::check_vel(&w, &format!("left by query {} of {}", k, views[vi].1), i, &v, &vel, &q);
                    cx.hit("velocities left by queries checked");
                }
                _ => {}
            }
        }
        let now = world_data(&w);
        if now != data {
            violation(format!(
                "query {} of {} changed the robot: {}",
                k,
                views[vi].1,
                first_diff(&data, &now)
            ));
        }
        match &first[vi][k] {
            None => first[vi][k] = Some(r),
            Some(f) => {
                repeated += 1;
                let same = f.text == r.text
                    && f.nums.len() == r.nums.len()
                    && f.nums.iter().zip(&r.nums).all(|(a, b)| {
                        a.to_bits() == b.to_bits() || (a - b).abs() <= tol * reach * vmax
                    });
                if !same {
                    violation(format!(
                        "query {} of {} gives another result when repeated: {:?}{} then {:?}{}",
                        k, views[vi].1, f.nums, f.text, r.nums, r.text
                    ));
                }
            }
        }
        cx.hit("queries");
    }
    cx.count("queries repeated and compared", repeated);
    if repeated > 3 {
        cx.nontrivial();
    }
}
pub fn p22(cx: &mut Cx) {
    both(cx, p22_t::<f64>, p22_t::<f32>)
}

// ------------------------------------------------------------------ P23

/// Builds, uses and drops trees; returns the description
fn lifetime_run<T: Sc>(cx: &mut Cx, spec: &Spec<T>, script: u64) {
    let mut rng = crate::rng::Rng::new(script);
    std::mem::swap(&mut rng, &mut cx.rng);
    {
        let mut w = World::new(spec.clone());
        history(cx, &mut w, ALL, 6);
        // reconnect some
        for _ in 0..cx.rng.below(3) {
            let i = cx.rng.below(w.len());
            if let Some(p) = w.nodes[i].parent() {
                w.nodes[i].remove_parent(&p);
                if cx.rng.p(0.6) || !spec.mimic.is_empty() {
                    w.nodes[i].set_parent(&p);
                } else {
                    // somewhere else, outside of its own subtree
                    let sub: Vec<Node<T>> = w.nodes[i].iter_descendants().collect();
                    let other: Vec<&Node<T>> = w.nodes.iter().filter(|n| !sub.contains(n)).collect();
                    if let Some(o) = other.get(cx.rng.below(other.len().max(1))) {
                        w.nodes[i].set_parent(o);
                    }
                }
                cx.hit("reconnections");
            }
        }
        // a solver with a function which holds on to nodes
        if cx.rng.p(0.4) {
            let mut s = k::JacobianIkSolver::<T>::default();
            for _ in 0..cx.rng.range(1, 3) {
                let hold = w.nodes[cx.rng.below(w.len())].clone();
                s.set_nullspace_function(Box::new(move |q: &[T]| {
                    let x = hold.joint_position().unwrap_or_else(T::zero) * T::of(0.01);
                    vec![x; q.len()]
                }));
                use k::prelude::*;
                let arm = SerialChain::from_end(&w.nodes[cx.rng.below(w.len())]);
                let t = arm.end_transform();
                let _ = s.solve(&arm, &t);
                if cx.rng.p(0.4) {
                    s.clear_nullspace_function();
                }
            }
        }
        let c = Chain::from_root(w.nodes[0].clone());
        let d = if cx.rng.p(0.7) { Some(c.clone()) } else { None };
        let i = cx.rng.below(w.len());
        let arm = SerialChain::from_end(&w.nodes[i]);
        let e = if cx.rng.p(0.5) { Some(arm.clone()) } else { None };
        let _ = format!("{} {}", c, arm);
        {
            use k::prelude::*;
            let t = arm.end_transform();
            let mut far = t;
            far.translation.vector[0] += T::of(100.0);
            let s = k::JacobianIkSolver::<T>::default();
            let _ = s.solve(&arm, &t);
            let _ = s.solve(&arm, &far);
        }
        let _ = k::jacobian(&arm);
        c.update_transforms();
        c.update_velocities();
        c.update_link_transforms();
        for n in w.nodes.iter() {
            let _ = n.set_joint_position_clamped(T::of(0.1));
        }
        // drop everything in any order
        let mut things: Vec<Box<dyn std::any::Any>> = vec![Box::new(c), Box::new(arm)];
        if let Some(d) = d {
            let n: Vec<Node<T>> = d.iter().cloned().collect();
            things.push(Box::new(d));
            if cx.rng.p(0.5) {
                things.push(Box::new(n));
            }
        }
        if let Some(e) = e {
            things.push(Box::new(e));
        }
        for n in std::mem::take(&mut w.nodes) {
            things.push(Box::new(n));
        }
        cx.rng.shuffle(&mut things);
        while let Some(x) = things.pop() {
            drop(x);
        }
    }
    std::mem::swap(&mut rng, &mut cx.rng);
}

fn p23_t<T: Sc>(cx: &mut Cx) {
    let o = GenOpt {
        max: if cx.rng.p(0.1) { 80 } else { 16 },
        links: 0.4,
        velocities: true,
        path: cx.rng.p(0.2),
        ..GenOpt::default()
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &o);
    if cx.rng.p(0.5) {
        gen_mimics(cx, &mut s, false);
    }
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    // ---- what a chain keeps alive
    {
        let mut w = World::new(s.clone());
        sample(cx, &w);
        let root = Chain::from_root(w.nodes[0].clone());
        let (v, _, _, d) = gen_view(&w, &mut cx.rng);
        let idx = chain_idx(&w, v.c());
        let all = chain_idx(&w, &root);
        let q = w.positions();
        let fk = w.fk(&q);
        let vel = ref_velocities(&w, &q);
        let kept = cx.rng.below(w.len());
        let handle = w.nodes[kept].clone();
        w.nodes.clear();
        // the part chain has the poses of the whole tree as long as the top is held
        let got = v.c().update_transforms();
        for (g, i) in got.iter().zip(&idx) {
            w.check_pose(&format!("{} with dropped handles", d), *i, g, &fk[*i], &q);
        }
        let got = v.c().update_velocities();
        for (g, i) in got.iter().zip(&idx) {
            check_vel(&w, &d, *i, g, &vel, &q);
        }
        let got = root.update_transforms();
        if got.len() != all.len() {
            violation("nodes vanish with their handles".into());
        }
        for (g, i) in got.iter().zip(&all) {
            w.check_pose("whole tree with dropped handles", *i, g, &fk[*i], &q);
        }
        let path = w.path(kept);
        let up: Vec<String> = handle.iter_ancestors().map(|n| n.joint().name.clone()).collect();
        let want: Vec<String> = path.iter().rev().map(|i| w.s.n[*i].name.clone()).collect();
        if up != want {
            violation(format!("ancestors of a held node are {:?} instead of {:?}", up, want));
        }
        drop(root);
        if idx[0] == 0 {
            // this chain holds the top of the tree, and so everything
            let got = v.c().update_transforms();
            for (g, i) in got.iter().zip(&idx) {
                w.check_pose("chain with the top", *i, g, &fk[*i], &q);
            }
            let up: Vec<String> = handle.iter_ancestors().map(|n| n.joint().name.clone()).collect();
            if up != want {
                violation(format!("ancestors of a held node are {:?} instead of {:?}", up, want));
            }
            cx.hit("trees held by a chain with the top only");
            if let Some(n) = v.c().iter().next() {
                let down = n.iter_descendants().count();
                if down != w.s.n.len() {
                    violation(format!("{} of {} nodes are left below the held root", down, w.s.n.len()));
                }
            }
        }
        // descendants are kept by their ancestors
        drop(v);
        let down: BTreeSet<String> = handle.iter_descendants().map(|n| n.joint().name.clone()).collect();
        let want: BTreeSet<String> = {
            let mut v = vec![kept];
            let mut k = 0;
            while k < v.len() {
                let x = v[k];
                v.extend((0..w.s.n.len()).filter(|j| w.s.n[*j].parent == Some(x)));
                k += 1;
            }
            v.iter().map(|i| w.s.n[*i].name.clone()).collect()
        };
        if down != want {
            violation(format!(
                "descendants of the only held node {} are {:?} instead of {:?}",
                kept, down, want
            ));
        }
        cx.hit("keep-alive histories");
    }
    // ---- nothing is left
    let script = cx.rng.u64();
    let tracing = std::mem::replace(&mut cx.tracing, false);
    if cx.rng.p(0.25) {
        // names by which nodes which are kept can be told from other memory, even if it is only one
        for n in s.n.iter_mut() {
            let mut l = MARK.min(n.name.len());
            while !n.name.is_char_boundary(l) {
                l -= 1;
            }
            n.name.truncate(l);
            while n.name.len() < MARK {
                n.name.push('~');
            }
        }
        let a = net_marks();
        lifetime_run(cx, &s, script);
        let b = net_marks();
        if a != b {
            violation(format!("after dropping all chains and nodes {} names of joints are still in memory", b - a));
        }
        cx.hit("trees with traceable names dropped");
    }
    if cx.rng.p(0.15) {
        // the same for robots loaded from URDFs
        let mut robot = crate::p_urdf::random_robot(&mut cx.rng);
        let used: std::collections::HashSet<String> = robot.joints.iter().filter_map(|j| j.mimic.as_ref().map(|m| m.joint.clone())).collect();
        for j in robot.joints.iter_mut().filter(|j| !used.contains(&j.name)) {
            while j.name.len() < MARK {
                j.name.push('~');
            }
        }
        let urdf = |robot: &urdf_rs::Robot| {
            let c = if robot.joints.len() % 2 == 0 { Chain::<T>::from(robot) } else { Chain::<T>::from(robot.clone()) };
            c.update_link_transforms();
            let _ = (k::urdf::link_to_joint_map(robot), k::urdf::joint_to_link_map(robot));
            let _ = format!("{}", c.clone());
            c.set_joint_positions_clamped(&vec![T::of(0.5); c.dof()]);
            c.iter().count()
        };
        let a = net_marks();
        let n = urdf(&robot);
        let b = net_marks();
        if a != b {
            violation(format!("after dropping a chain made from a URDF {} names of joints are still in memory", b - a));
        }
        let a = net_alloc();
        urdf(&robot);
        let b = net_alloc();
        if a != b {
            violation(format!("after dropping a chain made from a URDF {} bytes in {} blocks are left", b.0 - a.0, b.1 - a.1));
        }
        cx.count("nodes made from URDFs dropped", n as u64);
    }
    lifetime_run(cx, &s, script);
    let a = net_alloc();
    lifetime_run(cx, &s, script);
    let b = net_alloc();
    cx.tracing = tracing;
    if b != a {
        violation(format!(
            "after dropping all chains and nodes {} bytes in {} blocks are left",
            b.0 - a.0,
            b.1 - a.1
        ));
    }
    cx.hit("allocation balances compared");
    if s.n.len() > 2 {
        cx.nontrivial();
    }
    // ---- known: a leader below its follower is a cycle of strong references
    if cx.rng.p(0.02) {
        let run = || {
            let f: Node<T> = NodeBuilder::new()
                .joint_type(k::JointType::Rotational {
                    axis: k::Vector3::z_axis(),
                })
                .into_node();
            let l: Node<T> = NodeBuilder::new()
                .joint_type(k::JointType::Rotational {
                    axis: k::Vector3::z_axis(),
                })
                .into_node();
            l.set_parent(&f);
            f.set_mimic_parent(&l, k::joint::Mimic::new(T::of(1.0), T::of(0.0)));
        };
        run();
        let a = net_alloc();
        run();
        let b = net_alloc();
        if a != b {
            cx.known(
                "mimic-follower-above-leader",
                "memory is not released if a joint mimics one of its own descendants".into(),
            );
        }
    }
}
pub fn p23(cx: &mut Cx) {
    both(cx, p23_t::<f64>, p23_t::<f32>)
}
