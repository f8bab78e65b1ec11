//! Controlled scheduling of the tasks of the code under test: every choice of
//! which task goes on next is taken from a plan, so that all schedules (up to
//! a number of preemptions) can be enumerated.  See vendor/tokio/src/control.rs.
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;
use tokio::control::{install, uninstall, Controller, Runnable};

pub struct Point {
    pub alts: usize,
    pub taken: usize,
    /// of a non-zero choice
    cost: usize,
    /// the last alternative (an event from outside) costs nothing
    free_last: bool,
}
impl Point {
    fn price(&self, a: usize) -> usize {
        if a == 0 || (self.free_last && a + 1 == self.alts) {
            0
        } else {
            self.cost
        }
    }
}
/// One schedule: the choices at each point where there was one.
#[derive(Default)]
pub struct Plan {
    prefix: Vec<usize>,
    pub points: Vec<Point>,
    pub steps: u64,
    /// a step nobody chose although the prefix asks for it
    pub diverged: bool,
    last: Option<u64>,
    /// do not interrupt a task that holds a lock, except where it takes another
    pub reduced: bool,
    system: BTreeSet<u64>,
    known: BTreeSet<u64>,
    /// an event outside the program that may come at any time, once
    pub event: Option<Box<dyn FnOnce()>>,
    pub happened: bool,
    /// the tasks that were interrupted and by which, for reports
    pub log: Vec<String>,
}
impl Plan {
    fn pick(&mut self, alts: usize, cost: usize, free_last: bool) -> usize {
        let i = self.points.len();
        let mut c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c >= alts {
            self.diverged = true;
            c = 0;
        }
        self.points.push(Point { alts, taken: c, cost, free_last });
        c
    }
}
struct Ctl(Rc<RefCell<Plan>>);
impl Controller for Ctl {
    fn choose(&mut self, rs: &[Runnable]) -> Option<usize> {
        let mut p = self.0.borrow_mut();
        p.steps += 1;
        // tasks that existed before, like the loops of server and client,
        // go on at once; those an event wakes are part of the exploration
        for r in rs {
            if !r.spawned && p.known.insert(r.thread) && (!p.happened || r.background) {
                p.system.insert(r.thread);
            }
        }
        if let Some(i) = rs.iter().position(|r| p.system.contains(&r.thread)) {
            return Some(i);
        }
        // at most one alternative per logical thread and task, the interrupted
        // one first
        let mut order: Vec<usize> = (0..rs.len()).collect();
        order.sort_by_key(|i| (Some(rs[*i].thread) != p.last, rs[*i].task));
        let still = Some(rs[order[0]].thread) == p.last;
        if still && p.reduced && rs[order[0]].critical {
            return Some(order[0]);
        }
        let n = order.len() + p.event.is_some() as usize;
        let free_last = p.event.is_some();
        let c = if n > 1 { p.pick(n, still as usize, free_last) } else { 0 };
        if c == order.len() {
            let e = p.event.take().unwrap();
            p.happened = true;
            p.log.push("event".into());
            drop(p);
            e();
            return None;
        }
        let r = rs[order[c]];
        if p.last != Some(r.thread) {
            p.log.push(format!("task {}", r.thread));
        }
        p.last = Some(r.thread);
        Some(order[c])
    }
}
/// Runs `f` with the schedule `prefix` (first choices afterwards).
pub fn with_plan<T>(prefix: Vec<usize>, reduced: bool, event: Option<Box<dyn FnOnce()>>, f: impl FnOnce() -> T) -> (T, Plan) {
    let p = Rc::new(RefCell::new(Plan { prefix, reduced, event, ..Default::default() }));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            uninstall();
        }
    }
    let out = {
        install(Box::new(Ctl(p.clone())));
        let _off = Off;
        f()
    };
    let p = std::mem::take(&mut *p.borrow_mut());
    (out, p)
}
/// What `explore` did: executions, schedules that could not be reproduced
/// (the kernel has a say in when a process ends), and whether it was stopped.
#[derive(Default, Debug)]
pub struct Explored {
    pub runs: u64,
    pub lost: u64,
    pub complete: bool,
}
/// How often a schedule is tried if it does not come about as planned.
const TRIES: u32 = 12;
/// Depth-first through all schedules whose cost stays within `bound`.
/// `run` returns the plan it was given after it was carried out.
pub fn explore(bound: usize, stop: &dyn Fn() -> bool, run: &mut dyn FnMut(Vec<usize>) -> Plan) -> Explored {
    let mut stack = vec![(vec![], 0)];
    let mut x = Explored::default();
    while let Some((prefix, tries)) = stack.pop() {
        if stop() {
            return x;
        }
        let plen = prefix.len();
        let p = run(prefix.clone());
        x.runs += 1;
        if p.diverged || p.points.len() < plen {
            if tries + 1 < TRIES {
                stack.push((prefix, tries + 1));
            } else {
                x.lost += 1;
            }
            continue;
        }
        let choices: Vec<usize> = p.points.iter().map(|x| x.taken).collect();
        let mut cost: usize = p.points[..plen].iter().map(|x| x.price(x.taken)).sum();
        let mut add = vec![];
        for i in plen..p.points.len() {
            let at = &p.points[i];
            for a in 1..at.alts {
                if cost + at.price(a) <= bound {
                    let mut q = choices[..i].to_vec();
                    q.push(a);
                    add.push((q, 0));
                }
            }
            cost += at.price(at.taken);
        }
        add.reverse();
        stack.extend(add);
    }
    x.complete = true;
    x
}
