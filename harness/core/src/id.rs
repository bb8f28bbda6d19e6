//! Identifiers and their text form (I01).
use crate::common::*;
use astro_run::*;

fn part(b: u8) -> bool { (b >= 0x20) & (b < 0x7f) & (b != b'/') }
fn text(b: u8) -> bool { (b == b'/') | (b == b'a') | ((b >= b'0') & (b <= b'9')) | (b == b'-') | (b == b' ') }

/// identifiers made of any parts come back from their text form as they were
fn roundtrip(n: usize) {
    let w = any_str(choose(n + 1), part);
    let j = any_str(choose(n + 1), part);
    match choose(3) {
        0 => {
            assume(!w.is_empty());
            let id = WorkflowId::new(w.clone());
            let t = id.to_string();
            check(WorkflowId::try_from(t.as_str()).ok().map_or(false, |x| x == id), "[I01] a run's identifier survives its text form");
            check(id.inner() == w, "[I01] the run's identifier is the text it was made of");
            reach("run");
        }
        1 => {
            let id = JobId::new(w.clone(), j.clone());
            let t = id.to_string();
            check(JobId::try_from(t.as_str()).ok().map_or(false, |x| x == id), "[I01] a job's identifier survives its text form");
            check(id.job_key() == j && id.workflow_id() == WorkflowId::new(w), "[I01] a job's identifier names its run and key");
            reach("job");
        }
        _ => {
            let k = match choose(3) { 0 => (any_u8() as usize) % 128, 1 => 4_294_967_296, _ => usize::MAX };
            let id = StepId::new(w.clone(), j.clone(), k);
            let t = id.to_string();
            check(StepId::try_from(t.as_str()).ok().map_or(false, |x| x == id), "[I01] a step's identifier survives its text form");
            check(id.job_key() == j && id.workflow_id() == WorkflowId::new(w.clone()) && id.job_id() == JobId::new(w, j) && id.step_number() == k, "[I01] a step's identifier names its run, job and number");
            reach("step");
        }
    }
}
#[no_mangle]
pub extern "C" fn sx_id_roundtrip() { roundtrip(2) }
#[no_mangle]
pub extern "C" fn sx_id_roundtrip4() { roundtrip(4) }

/// any text: accepted exactly if it has the right form, and then it means what it says
fn parse(n: usize) {
    let s = any_str(choose(n + 1), text);
    let p: Vec<&str> = s.split('/').collect();
    match choose(3) {
        0 => match WorkflowId::try_from(s.as_str()) {
            Ok(x) => { check(!s.is_empty() && x.inner() == s, "[I01] a run's identifier is read as written"); reach("read") }
            Err(_) => { check(s.is_empty(), "[I01] a run's identifier that has the right form is read"); reach("refused") }
        },
        1 => match JobId::try_from(s.as_str()) {
            Ok(x) => { check(p.len() == 2 && x == JobId::new(p[0], p[1]), "[I01] a job's identifier is read as written"); reach("read") }
            Err(_) => { check(p.len() != 2, "[I01] a job's identifier that has the right form is read"); reach("refused") }
        },
        _ => {
            let num = p.get(2).map_or(false, |d| !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()));
            match StepId::try_from(s.as_str()) {
                Ok(x) => {
                    check(p.len() == 3 && num, "[I01] a step's identifier without a number is refused");
                    if p.len() == 3 && num {
                        let mut k = 0usize;
                        for b in p[2].bytes() { k = k * 10 + (b - b'0') as usize; }
                        check(x == StepId::new(p[0], p[1], k), "[I01] a step's identifier is read as written");
                    }
                    reach("read")
                }
                Err(_) => { check(p.len() != 3 || !num, "[I01] a step's identifier that has the right form is read"); reach("refused") }
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn sx_id_parse() { parse(4) }
#[no_mangle]
pub extern "C" fn sx_id_parse6() { parse(6) }
/// step numbers of every size, and long or odd parts
#[no_mangle]
pub extern "C" fn sx_id_sizes() {
    let x = any_str(1, part);
    let p = match choose(4) { 0 => x.clone(), 1 => format!("{}{}", "k".repeat(300), x), 2 => format!("{}-ü-\u{1F600}", x), _ => format!("a.b_c {}:d", x) };
    let k = *pick(&[0usize, 9, 10, 19, 99, 100, 127, 128, 255, 256, 999, 1000, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 2147483647, 2147483648, 4294967295, 4294967296, usize::MAX - 1, usize::MAX]);
    let id = StepId::new(p.clone(), format!("j{}", p), k);
    let t = id.to_string();
    check(t == format!("{}/j{}/{}", p, p, k), "[I01] the text of a step's identifier is its parts, separated by slashes");
    check(StepId::try_from(t.as_str()).ok().map_or(false, |y| y == id && y.step_number() == k), "[I01] a step's identifier survives its text form");
    let j = id.job_id();
    check(JobId::try_from(j.to_string().as_str()).ok().map_or(false, |y| y == j && y.job_key() == format!("j{}", p)), "[I01] a job's identifier survives its text form");
    check(WorkflowId::try_from(p.as_str()).ok().map_or(false, |y| y == id.workflow_id() && y.inner() == p), "[I01] a run's identifier survives its text form");
    // one too many digits does not fit
    check(StepId::try_from(format!("{}/j/{}0", p, usize::MAX).as_str()).is_err(), "[I01] a step's number that does not fit is refused");
    reach("completed");
}
