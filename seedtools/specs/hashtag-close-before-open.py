prop = "C20"
needs = "a key with a closing brace before its hash tag"
breaks = "the hash tag is ignored, so keys with equal tags no longer share a slot"
edits = [("component/db/src/lib.rs", "if let Some(end) = key[begin..].iter().position(|t| *t == b'}') {", "if let Some(end) = key.iter().position(|t| *t == b'}').and_then(|e| e.checked_sub(begin)) {")]
rs = '''
use dict::Dict;
#[tokio::main]
async fn main() {
    let db = db::Db::new().await;
    let set = |k: &[u8]| {
        db.set(dict::cmd::simple::set::Req { key: k.into(), value: "v".into(),
            expires_at: common::options::ExpiresAt::Specific(0), nx_xx: common::options::NxXx::None }).unwrap();
        (0..db.slots.len()).filter(|i| db.get_slot_by_id(*i).share_status.lock().as_ref().unwrap().dict.raw_get(k).is_some()).collect::<Vec<_>>()
    };
    assert_eq!(set(b"a{tag}"), set(b"b{tag}"));
    assert_eq!(set(b"a{tag}"), set(b"x}{tag}y"));
}
'''
