use crate::Prop;

mod backend;
mod builtins;
mod bursts;
mod config;
mod files;
mod history;
mod hostile;
mod local;
mod node;
mod units;
mod uris;
mod world;

pub fn all() -> &'static [Prop] {
    static ALL: std::sync::OnceLock<Vec<Prop>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = vec![];
        v.extend(local::props());
        v.extend(world::props());
        v.extend(files::props());
        v.extend(builtins::props());
        v.extend(backend::props());
        v.extend(config::props());
        v.extend(uris::props());
        v.extend(units::props());
        v.extend(hostile::props());
        v.extend(bursts::props());
        v.extend(history::props());
        v.extend(node::props());
        v
    })
}
