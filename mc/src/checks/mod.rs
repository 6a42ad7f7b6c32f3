use crate::engine::Check;
mod across;
mod announced;
mod asking;
mod backend;
mod bench;
mod complete;
mod edits;
mod history;
mod node;
mod observe;
mod imports;
mod meaning;
mod schedule;
mod space;
mod spelling;
mod settings;
mod survive;
mod text;
mod workspace;
use meaning::{Dim, Meaning};

pub fn get(id: &str) -> Option<Box<dyn Check>> {
    Some(match id {
        "B00" => Box::new(bench::Bench),
        "C01" => Box::new(edits::Edits),
        "C02" => Box::new(survive::Survive),
        "C03" => Box::new(schedule::Schedules),
        "C04" => Box::new(history::Histories),
        "C05" => Box::new(Meaning(Dim::Lint)),
        "C06" => Box::new(Meaning(Dim::Symbols)),
        "C07" => Box::new(Meaning(Dim::Goto)),
        "C08" => Box::new(Meaning(Dim::Hover)),
        "C09" => Box::new(Meaning(Dim::Complete)),
        "C10" => Box::new(complete::Contexts),
        "C11" => Box::new(complete::Accept),
        "C12" => Box::new(imports::Imports(imports::Dim::Missing)),
        "C13" => Box::new(imports::Imports(imports::Dim::Leads)),
        "C14" => Box::new(backend::BackendFiles("rust")),
        "C15" => Box::new(backend::BackendFiles("python")),
        "C16" => Box::new(workspace::Workspace),
        "C18" => Box::new(across::Across),
        "C20" => Box::new(asking::Asking),
        "C21" => Box::new(node::Bindings),
        "C22" => Box::new(text::Between),
        "C17" => Box::new(settings::Settings),
        "C23" => Box::new(announced::Announced),
        "C24" => Box::new(spelling::Spelling),
        _ => return None,
    })
}
