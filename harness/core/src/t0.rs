use sym::*;
#[no_mangle]
pub extern "C" fn sx_t0_basic() {
    let x = any_u8();
    let y = any_u8();
    assume(x < 10);
    if x > 5 { reach("big"); check(x as u32 + 1 > 6, "x+1>6"); } else { reach("small"); }
    let s = any_str(3, |b| b == b'a' || b == b'/' || b == b'0');
    match astro_run::StepId::try_from(s.as_str()) { Ok(_) => reach("ok"), Err(_) => reach("err") }
    let t = astro_run::StepId::try_from("a/b/3").unwrap();
    check(t.step_number() == 3, "n");
    let mut m = std::collections::HashMap::new();
    m.insert("a".to_string(), 1);
    m.insert("b".to_string(), 2);
    for (k, _) in &m { note(k); }
    check(y != 77 || x != 3, "finds 77");
    let h = tokio::spawn(async { 5 });
    let g = tokio::spawn(async { 6 });
    let r = rt::block_on(async { tokio::join!(h, g) });
    check(r.0.unwrap() + r.1.unwrap() == 11, "sum");
    note(&format!("{:?}", std::time::SystemTime::now()));
}
