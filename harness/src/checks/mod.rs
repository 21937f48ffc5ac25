pub mod batches;
pub mod builders;
pub mod faults;
pub mod generators;
pub mod graph;
pub mod hostile;
pub mod library;
pub mod options;
pub mod sched;
pub mod shapes;
pub mod students;
pub mod scores;
pub mod serialized;
pub mod stores;
pub mod threads;
pub mod values;

use crate::ctx::Ctx;

pub fn find(pid: &str) -> Option<fn(&mut Ctx)> {
    let f: fn(&mut Ctx) = match pid {
        "C01" => sched::batch_integrity,
        "C02" => sched::gating,
        "C03" => sched::progress,
        "C04" => sched::confinement,
        "C05" => sched::blacklist,
        "C06" => sched::superseding,
        "C07" => sched::cache,
        "C13" => faults::crashes,
        "C14" => faults::refusals,
        "C15" => threads::concurrency,
        "C16" => graph::unit_graph,
        "C23" => builders::course_builders,
        "C24" => sched::rewards,
        "C25" => sched::options,
        "C29" => hostile::malformed,
        "C30" => sched::mix,
        "C31" => sched::relearn,
        "C32" => batches::order,
        "C33" => batches::adaptation,
        "C34" => batches::knocked_out,
        "C35" => batches::preference,
        "C36" => faults::outages,
        "C37" => shapes::shapes,
        "C39" => options::validity,
        "C38" => students::students,
        "C08" => scores::formulas,
        "C09" => stores::trials,
        "C10" => stores::rewards,
        "C11" => stores::deltas,
        "C12" => stores::sets,
        "C17" => library::loading,
        "C18" => serialized::serialization,
        "C19" => generators::knowledge_base,
        "C20" => generators::literacy_course,
        "C21" => generators::transcription_course,
        "C22" => generators::music_piece,
        "C26" => values::saved_values,
        "C27" => values::metadata,
        "C28" => values::session_parts,
        _ => return None,
    };
    Some(f)
}
