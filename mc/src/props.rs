//! Which drivers decide which property.

use crate::engine::*;
use crate::faults::*;
use crate::img::*;
use crate::walk::*;
use crate::{clear, context, cost, cross, handles, tool, hdr, inv, iters, lists, names, places, real, refs, room, sched, vals};

pub fn notes(prop: &str) -> (String, Vec<&'static str>) {
    let common = "Every case of every driver below is executed (no sampling): the real library, rebuilt from /repo, runs in lockstep with an independent model of the hive format, and every operation's outcome is compared. states = handles/records/inputs visited, transitions = library calls compared.";
    let p = match prop {
        "C01" => "Any panic, overflow (overflow checks on), abort, stack overflow (8 MiB stacks) or stall reported by the supervisor is a violation.",
        "C02" => "Opening with and without validation is compared with the header model on every generated header.",
        "C04" => "Enumeration is compared item by item with the model's entry list, records identified by address.",
        "C03" => "Every slice the library hands out must lie, by address, in the record the model accepts; every reference is pointed at every offset.",
        "C05" => "Every enumerated name and every gap between names is looked up; sorted lists must answer exactly as the enumeration does, others must never invent a key.",
        "C06" => "Adaptive poisoning: every list entry and sub-list reference is dangling with its own address, the error reveals which one the search needs, only that is repaired, and the count of repairs is the exact dependency set of the lookup.",
        "C07" => "A path lookup is compared with the fold of single lookups on the same hive and with the model.",
        "C08" => "Every value list is looked up by every name that occurs, near misses and absent names; the first match in enumeration order decides.",
        "C09" => "Data is compared byte by byte and by address with the concatenation of the accepted segments.",
        "C10" => "Every type number, size and layout goes through every typed accessor.",
        "C11" | "C12" => "Strings are compared with an independent decoder, and storage in segments with storage in one cell.",
        "C13" => "All operators are compared with a Unicode 13 table that was not taken from the library.",
        "C14" => "Names are compared by address with the stored bytes, conversions with an independent decoder.",
        "C15" => "Call histories are enumerated completely; the oracle is a cursor over the items that plain stepping returns.",
        "C16" => "The whole buffer is compared with the model's after the call, whether it succeeds or fails.",
        "C17" => "Single damage: the exact error value, numbers and offset; several: the kind. Messages must state the same numbers.",
        "C18" => "Equality must coincide with identity of the record, every repeated read must give its first answer, also with another thread's read interleaved at any access to the bytes, and the bytes must not change.",
        "C19" => "A digest of every observable result must be the same for every buffer kind, address, feature set, overflow-check setting, pointer width and byte order.",
        "C20" => "The real process is given each file; standard output, exit status and the absence of a crash are compared with the model's rendering.",
        "C21" => "Every operation runs under a counting allocator on a 64 KiB stack.",
        "C22" => "The digest of everything observable must be that of the unchanged hive.",
        "C23" => "A rendering of everything readable without positions must be that of the original layout.",
        "C24" => "Every operation runs on a buffer that counts accesses; at most 150 per record or entry that has to be looked at (the costliest takes 16); and under an instruction counter, at sizes that grow by 8.",
        _ => "",
    };
    (format!("{common} {p}"), vec![
        "hive bytes after the header are data up to the end of the buffer, whatever the header's data size says",
    ])
}

fn c(f: impl FnOnce(&mut Cfg)) -> Cfg {
    let mut x = Cfg { validate: false, lookups: false, extra_probes: vec![], iters: false, typed: false, names: false, clear: false, paths: vec![], exact: false, ident: false, max_keys: 64 };
    f(&mut x);
    x
}

fn sd32() -> Vec<(&'static str, Img)> {
    let mut v = refs::sd();
    v.push(("small-big", refs::small_big()));
    v
}

pub fn drivers(prop: &str, tier: Tier) -> Vec<Drv> {
    let q = tier == Tier::Quick;
    let pick = |a: usize, b: usize| if q { a } else { b };
    match prop {
        "C01" => {
            let full = Cfg::full();
            let mut v = vec![
                clear::runaway("runaway"),
                byte_faults("byte-faults", seeds(), full.clone()),
                field_faults("field-faults", seeds(), full.clone(), |_| true),
                pair_faults("pair-faults", seeds(), full.clone()),
                real::faults("real-faults", Cfg { lookups: !q, ..full.clone() }, !q, |_| true),
                room::walks("spare-room", full.clone(), false),
                context::forms("versions", full.clone(), false),
                context::faulty("version-faults", full.clone(), false),
                context::noise("noise", full.clone(), false),
                triple_faults("triple-faults", full.clone(), pick(4, 10)),
                truncations("truncations", seeds(), full.clone()),
                tiny_blobs("tiny-blobs", 6, tier),
                wiring("wiring", tier, full.clone()),
                field_faults("field-faults-big", seeds_big(), full.clone(), |_| true),
                lists::extreme_args("extreme-arguments"),
                refs::far("far-offsets", sd32(), full.clone()),
                cross::variants("32-bit-faults", "every single-field fault of the seeds", cross::P32[..2].to_vec(), cross::field_items(&sd32()), vec![0, 1], true),
                cross::variants("32-bit-headers", "odd headers", cross::P32[..2].to_vec(), cross::headers(), vec![0], true),
                cross::variants("32-bit-intact", "intact hives of many forms", cross::P32[..2].to_vec(), cross::intact_items(!q), vec![0], true),
                lists::shapes("all-shapes", pick(6, 7), full.clone()),
                lists::damaged_entries("all-damaged-entries", pick(3, 4), full.clone()),
                lists::damaged_sublists("all-damaged-sublists", pick(3, 4), full.clone()),
            ];
            // and the families of all other properties
            let own = ["byte-faults", "field-faults", "pair-faults", "triple-faults", "truncations", "far-offsets", "placed-faults", "shapes", "damaged-entries", "damaged-sublists", "string-pairs", "all-pairs", "references", "header-bytes", "real-faults", "real-hive", "spare-room", "versions", "version-faults", "noise"];
            let mut seen: Vec<&str> = vec![];
            for p in ["C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C18", "C22", "C23", "C24"] {
                for mut d in drivers(p, Tier::Quick) {
                    let shared = ["large-lists", "odd-names", "long-names", "all-units"].contains(&d.name);
                    if own.contains(&d.name) || d.name.ends_with("-faults-big") || (shared && seen.contains(&d.name) && !["C11", "C12"].contains(&p)) || ["wiring", "growth"].contains(&d.name) {
                        continue;
                    }
                    seen.push(d.name);
                    d.name = Box::leak(format!("{p}-{}", d.name).into_boxed_str());
                    v.push(d);
                }
            }
            v
        }
        "C02" => vec![
            hdr::product("header-product"),
            hdr::bytes("header-bytes"),
            hdr::lengths("input-lengths"),
            hdr::checksums("checksums"),
            hdr::bulk("field-sweeps", Tier::Thorough),
            hdr::huge("huge-buffers"),
            hdr::grid("extreme-numbers", Tier::Thorough),
            hdr::bits("bit-pairs", true),
            hdr::excuses("excuses"),
            refs::far("far-offsets", seeds(), c(|x| x.validate = true)),
        ],
        "C03" => {
            let w = Cfg { names: false, max_keys: 24, ..Cfg::structure() };
            let mut all = refs::sd();
            all.push(("small-big", refs::small_big()));
            vec![
                refs::refs_everywhere("references", all.clone()),
                refs::cell_sizes("cell-sizes", refs::sd(), pick(1024, 5120) as i32),
                refs::numbers("numbers", all.clone(), tier),
                refs::exact_fit("exact-fit", all.clone()),
                refs::extremes("extreme-numbers", all, w.clone(), tier),
                lists::damaged_entries("damaged-entries", pick(3, 5), w.clone()),
                room::walks("spare-room", w.clone(), !q),
                context::forms("versions", w.clone(), !q),
                context::faulty("version-faults", w.clone(), !q),
                context::noise("noise", w.clone(), !q),
                lists::damaged_sublists("damaged-sublists", pick(3, 5), w.clone()),
                vals::seg_damage("segment-states", pick(3, 4)),
                refs::far("far-offsets", sd32(), w.clone()),
                real::intact("real-hive", w.clone()),
                real::faults("real-faults", w.clone(), !q, |_| true),
                byte_faults("byte-faults", seeds(), w.clone()),
                pair_faults("pair-faults", refs::sd(), w.clone()),
                triple_faults("triple-faults", w.clone(), pick(4, 10)),
                truncations("truncations", refs::sd(), w),
            ]
        }
        "C04" => {
            let w = c(|x| x.max_keys = 16);
            vec![
                lists::large("large-lists", tier),
                lists::every_count("every-count", tier),
                lists::shapes("shapes", pick(9, 11), w.clone()),
                lists::damaged_entries("damaged-entries", pick(5, 6), w.clone()),
                lists::damaged_sublists("damaged-sublists", pick(6, 7), w.clone()),
                room::walks("spare-room", w.clone(), !q),
                context::forms("versions", w.clone(), !q),
                context::faulty("version-faults", w.clone(), !q),
                context::noise("noise", w.clone(), !q),
                refs::far("far-offsets", seeds(), w.clone()),
                real::intact("real-hive", w.clone()),
                real::faults("real-faults", w.clone(), !q, |f| f.name.starts_with("leaf") || f.name.starts_with("ri")),
                field_faults("field-faults", seeds(), w.clone(), |f| f.name.starts_with("nk") || f.name.starts_with("leaf") || f.name.starts_with("ri")),
                pair_faults("pair-faults", seeds(), w.clone()),
                triple_faults("triple-faults", w, pick(4, 10)),
            ]
        }
        "C05" => {
            let w = c(|x| {
                x.lookups = true;
                x.extra_probes = vec!["".into(), "ka".into(), "KB".into(), "kz".into(), "j".into()];
            });
            vec![
                lists::large("large-lists", tier),
                lists::every_count("every-count", tier),
                lists::name_sets("name-sets", pick(12, 16), 4),
                lists::all_units("all-units"),
                lists::odd_names("odd-names"),
                lists::long_names("long-names", tier),
                lists::unsorted("unsorted", pick(5, 7)),
                lists::shapes("shapes", pick(6, 8), w.clone()),
                lists::damaged_entries("damaged-entries", pick(4, 5), w.clone()),
                lists::damaged_sublists("damaged-sublists", pick(4, 5), w.clone()),
                room::walks("spare-room", w.clone(), !q),
                context::forms("versions", w.clone(), !q),
                context::faulty("version-faults", w.clone(), !q),
                context::noise("noise", w.clone(), !q),
                refs::far("far-offsets", seeds(), w.clone()),
                real::intact("real-hive", w.clone()),
                real::faults("real-faults", w.clone(), !q, |f| f.name.starts_with("leaf") || f.name.starts_with("nk.name")),
                field_faults("field-faults", seeds(), w.clone(), |_| true),
                pair_faults("pair-faults", tiny(), w.clone()),
                triple_faults("triple-faults", w, pick(4, 10)),
            ]
        }
        "C06" => vec![
            lists::search_cost("search-cost", tier),
            lists::poison_each("poison-each", pick(32, 96)),
        ],
        "C07" => vec![
            lists::paths("paths", pick(6, 8)),
            lists::odd_names("odd-names"),
            lists::deep_paths("deep-paths", tier),
            lists::long_names("long-names", tier),
            lists::path_chain("paths-damaged"),
            lists::extreme_args("extreme-paths"),
            context::forms("versions", c(|x| x.paths = Cfg::full().paths), !q),
            context::faulty("version-faults", c(|x| x.paths = Cfg::full().paths), !q),
            context::noise("noise", c(|x| x.paths = Cfg::full().paths), !q),
        ],
        "C08" => {
            let w = c(|x| {
                x.lookups = true;
                x.extra_probes = vec!["".into(), "a".into(), "M".into(), "zz".into()];
            });
            vec![
                vals::value_lists_long("long-lists", tier),
                vals::every_count("every-count", tier),
                vals::value_lists("value-lists", pick(4, 6)),
                lists::all_units("all-units"),
                lists::odd_names("odd-names"),
                lists::long_names("long-names", tier),
                room::walks("spare-room", w.clone(), !q),
                context::forms("versions", w.clone(), !q),
                context::faulty("version-faults", w.clone(), !q),
                context::noise("noise", w.clone(), !q),
                refs::far("far-offsets", seeds(), w.clone()),
                real::intact("real-hive", w.clone()),
                real::faults("real-faults", w.clone(), !q, |f| f.name.starts_with("v")),
                field_faults("field-faults", seeds(), w.clone(), |f| f.name.starts_with("v") || f.name.starts_with("nk")),
                pair_faults("pair-faults", vec![("values", build_tight(&seed_values(), 5))], w),
            ]
        }
        "C09" => {
            let w = c(|_| {});
            vec![
                vals::seg_many("many-segments"),
                vals::every_size("every-size", pick(70_000, 140_000) as usize),
                vals::data_sizes("data-sizes", tier),
                vals::seg_damage("segment-states", pick(5, 6)),
                room::walks("spare-room", w.clone(), !q),
                context::forms("versions", w.clone(), !q),
                context::faulty("version-faults", w.clone(), !q),
                context::noise("noise", w.clone(), !q),
                refs::far("far-offsets", sd32(), w.clone()),
                real::intact("real-hive", w.clone()),
                real::faults("real-faults", w.clone(), true, |f| ["vk.data", "vk.data_size", "data.cell", "seg.cell"].contains(&f.name) || f.name.starts_with("db")),
                field_faults("field-faults", seeds(), w.clone(), |f| f.name.starts_with("v") || f.name.starts_with("data")),
                field_faults("field-faults-big", seeds_big(), w, |_| true),
            ]
        }
        "C10" => {
            let w = c(|x| x.typed = true);
            vec![
                vals::typed_grid("typed-grid", Tier::Thorough),
                vals::num_bytes("number-bytes"),
                room::walks("spare-room", w.clone(), !q),
                context::forms("versions", w.clone(), !q),
                context::faulty("version-faults", w.clone(), !q),
                context::noise("noise", w.clone(), !q),
                vals::num_pairs("number-pairs"),
                refs::extremes("extreme-numbers", vec![("values", build_tight(&seed_values(), 5))], w.clone(), tier),
                real::intact("real-hive", w.clone()),
                field_faults("field-faults", seeds(), w, |f| f.name.starts_with("vk")),
            ]
        }
        "C11" => vec![
            vals::strings_small("small-1", pick(5, 7) as u32, 1),
            vals::strings_small("small-2", pick(4, 6) as u32, 2),
            vals::strings_split("split", pick(5, 6) as u32, 1),
            vals::strings_two("two-boundaries", 1),
            vals::strings_units("all-units", 1),
            vals::strings_edge("edges", 1, pick(300, 1000) as usize),
            vals::strings_damaged("damaged", 1),
            vals::strings_long("long-texts", 1, tier),
            vals::strings_lengths("all-lengths", 1, pick(16400, 70000) as usize),
            vals::strings_ends("ends", 1, tier),
            vals::strings_words("words", 1, pick(4, 6) as u32),
            vals::strings_pairs("all-pairs", 1, 0),
            context::forms("versions", c(|x| x.typed = true), !q),
            context::faulty("version-faults", c(|x| x.typed = true), !q),
            context::noise("noise", c(|x| x.typed = true), !q),
        ],
        "C12" => vec![
            vals::strings_small("small", pick(6, 7) as u32, 7),
            vals::strings_split("split", pick(5, 6) as u32, 7),
            vals::strings_two("two-boundaries", 7),
            vals::strings_units("all-units", 7),
            vals::strings_edge("edges", 7, pick(300, 1000) as usize),
            vals::strings_damaged("damaged", 7),
            vals::strings_long("long-texts", 7, tier),
            vals::strings_lengths("all-lengths", 7, pick(16400, 70000) as usize),
            vals::strings_ends("ends", 7, tier),
            vals::strings_words("words", 7, pick(4, 6) as u32),
            vals::strings_pairs("all-pairs", 7, 0),
            context::forms("versions", c(|x| x.typed = true), !q),
            context::faulty("version-faults", c(|x| x.typed = true), !q),
            context::noise("noise", c(|x| x.typed = true), !q),
        ],
        "C13" => {
            let mut v = vec![
                names::units_vs_reps("units"),
                names::string_pairs("string-pairs", pick(3, 5) as u32),
                names::long_pairs("long-pairs"),
                names::places("places", pick(200, 600) as usize),
            ];
            v.push(names::all_pairs("all-pairs"));
            v
        }
        "C14" => vec![
            names::flags_all("flags"),
            names::lengths("lengths", tier),
            names::conversions("conversions", pick(6, 7) as u32),
            names::conv_units("units"),
            names::conv_pairs("unit-pairs"),
            names::class_grid("class-names"),
            context::forms("versions", c(|x| x.names = true), !q),
            context::faulty("version-faults", c(|x| x.names = true), !q),
            context::noise("noise", c(|x| x.names = true), !q),
        ],
        "C15" => vec![
            iters::subkey_histories("subkeys", pick(5, 6), 5),
            iters::sublist_histories("sub-lists", 4, 4),
            iters::value_histories("values", pick(5, 6), pick(4, 5)),
            iters::data_histories("segments", 5, pick(5, 6)),
            iters::multi_histories("multi-strings", pick(6, 8) as u32, 3),
            context::forms("versions", c(|x| x.iters = true), !q),
            context::faulty("version-faults", c(|x| x.iters = true), !q),
            context::noise("noise", c(|x| x.iters = true), !q),
            lists::large("large-lists", tier),
        ],
        "C16" => {
            let w = c(|x| x.clear = true);
            vec![
                clear::small_trees("small-trees", pick(6, 7)),
                clear::damaged_trees("damaged-trees", pick(5, 6)),
                clear::shapes("shapes"),
                clear::reads("reads"),
                room::walks("spare-room", w.clone(), !q),
                context::forms("versions", w.clone(), !q),
                context::faulty("version-faults", w.clone(), !q),
                context::noise("noise", w.clone(), !q),
                refs::far("far-offsets", seeds(), w.clone()),
                byte_faults("byte-faults", seeds(), w.clone()),
                real::intact("real-hive", w.clone()),
                real::faults("real-faults", w.clone(), !q, |f| f.name.starts_with("nk") || f.name.starts_with("leaf")),
                field_faults("field-faults", seeds(), w.clone(), |_| true),
                refs::extremes("extreme-numbers", seeds(), w.clone(), tier),
                refs::extremes("counts-and-lists", clear::with_lists(), w.clone(), tier),
                pair_faults("pair-faults", seeds(), w.clone()),
                triple_faults("triple-faults", w, pick(4, 10)),
            ]
        }
        "C17" => {
            let w = Cfg { exact: true, iters: false, names: false, ..Cfg::full() };
            let mut all = refs::sd();
            all.push(("small-big", refs::small_big()));
            vec![
                byte_faults("byte-faults", seeds(), w.clone()),
                byte_faults("byte-faults-big", vec![("small-big", refs::small_big())], w.clone()),
                field_faults("field-faults", all.clone(), w.clone(), |_| true),
                field_faults("field-faults-big", seeds_big(), w.clone(), |_| true),
                refs::extremes("extreme-numbers", all.clone(), w.clone(), tier),
                real::faults("real-faults", Cfg { lookups: !q, ..w.clone() }, !q, |_| true),
                field_faults_placed("placed-faults", all.clone(), w.clone(), &[1, 2, 3, 4, 7, 8, 13]),
                truncations("truncations", all.clone(), w.clone()),
                refs::refs_everywhere_cfg("references", all.clone(), w.clone(), 1),
                vals::typed_grid("typed-grid", tier),
                context::forms("versions", w.clone(), !q),
                context::faulty("version-faults", w.clone(), !q),
                context::noise("noise", w.clone(), !q),
                hdr::product("header-product"),
                hdr::bytes("header-bytes"),
                hdr::lengths("input-lengths"),
                hdr::bulk("header-sweeps", tier),
                hdr::grid("header-numbers", tier),
            ]
        }
        "C18" => {
            let w = c(|x| {
                x.ident = true;
                x.max_keys = 12;
            });
            let mut all = refs::sd();
            all.push(("small-big", refs::small_big()));
            vec![
                handles::tricky("tricky"),
                handles::histories("read-histories", !q),
                handles::two_hives("two-hives", !q),
                sched::pairs("read-schedules", !q),
                handles::lookup_pairs("lookup-histories", !q),
                context::forms("versions", w.clone(), !q),
                context::faulty("version-faults", w.clone(), !q),
                context::noise("noise", w.clone(), !q),
                field_faults("field-faults", all.clone(), w.clone(), |_| true),
                wiring("wiring", Tier::Quick, w.clone()),
                lists::shapes("shapes", pick(4, 6), w.clone()),
                lists::damaged_entries("damaged-entries", 3, w.clone()),
                clear::reads("reads-keep-bytes"),
            ]
        }
        "C19" => {
            // across the middle of a 32-bit address space (see probe/src/proto.rs)
            const MID: usize = 1 << 31;
            let mut sd = refs::sd();
            sd.push(("small-big", refs::small_big()));
            let faults = cross::field_items(&sd);
            let mut v = vec![
                cross::variants("big-endian", "intact and damaged, fewer probes", cross::BE.to_vec(), cross::be_items(!q), vec![0, 3], false),
                cross::kinds("kinds-intact", "intact hives of many forms", cross::intact_items(!q), true),
                cross::kinds("kinds-faults", "every single-field fault of the seeds", faults.clone(), !q),
                cross::kinds("kinds-headers", "odd headers", cross::headers(), !q),
                cross::variants("64-bit-intact", "intact hives of many forms", cross::P64.to_vec(), cross::intact_items(!q), vec![0, 1, 4, 7], false),
                cross::variants("64-bit-faults", "every single-field fault of the seeds", cross::P64.to_vec(), faults.clone(), vec![0, 1, 4, 7], false),
                cross::variants("64-bit-headers", "odd headers", cross::P64.to_vec(), cross::headers(), vec![0], false),
                cross::variants("32-bit-intact", "intact hives of many forms", cross::P32.to_vec(), cross::intact_items(!q), vec![0, 1, 4, 7], false),
                cross::variants("32-bit-faults", "every single-field fault of the seeds", cross::P32.to_vec(), faults.clone(), vec![0, 1, 4, 7], false),
                cross::variants("32-bit-headers", "odd headers", cross::P32.to_vec(), cross::headers(), vec![0], false),
                cross::kinds("kinds-odd", "every code unit, awkward names, extreme lengths and counts", tool::odd_items(!q), true),
                cross::variants("64-bit-odd", "every code unit, awkward names, extreme lengths and counts", cross::P64.to_vec(), tool::odd_items(!q), vec![0, 3], false),
                cross::variants("32-bit-odd", "every code unit, awkward names, extreme lengths and counts", cross::P32.to_vec(), tool::odd_items(!q), vec![0, 3], false),
            ];
            v.push(cross::kinds("kinds-real", "faults in the hive of the repository's tests", real::items(false, pick(2, 1000)), !q));
            v.push(cross::variants("64-bit-real", "faults in the hive of the repository's tests", cross::P64.to_vec(), real::items(false, pick(2, 1000)), vec![0, 3], false));
            v.push(cross::variants("32-bit-real", "faults in the hive of the repository's tests", cross::P32.to_vec(), real::items(false, pick(2, 1000)), vec![0, 3], false));
            v.push(cross::variants("32-bit-middle-intact", "intact hives of many forms, across the middle of the address space in 7 ways", cross::P32.to_vec(), cross::intact_items(!q), [0, 1, 4095, 4096, 4197, 5000, 0xFF_FFFF].map(|x| MID | x).to_vec(), false));
            v.push(cross::variants("32-bit-middle-faults", "every single-field fault of the seeds, across the middle of the address space in 2 ways", cross::P32.to_vec(), faults, [300, 4310].map(|x| MID | x).to_vec(), false));
            v.push(places::addresses("addresses-intact", "intact seeds", places::seeds(&sd), pick(4, 1), q));
            v.push(places::addresses("addresses-faults", "every single-field fault of the seeds", cross::field_items(&sd), pick(4096, 64), q));
            v.push(places::addresses("addresses-forms", "intact hives of many forms", cross::intact_items(!q), pick(512, 32), q));
            if !q {
                let all: Vec<u8> = (0..=255).collect();
                v.push(cross::variants("64-bit-bytes", "every single-byte change of the seeds", cross::P64.to_vec(), cross::byte_items(&sd, &all), vec![0], false));
                v.push(cross::variants("32-bit-bytes", "every single-byte change of the seeds", cross::P32.to_vec(), cross::byte_items(&sd, &all), vec![0], false));
                v.push(cross::variants("64-bit-big", "single-field faults of long data", cross::P64.to_vec(), cross::field_items(&seeds_big()), vec![0, 1], false));
                v.push(cross::variants("32-bit-big", "single-field faults of long data", cross::P32.to_vec(), cross::field_items(&seeds_big()), vec![0, 1], false));
            }
            v
        }
        "C20" => vec![
            tool::deep("deep", !q),
            tool::invocations("invocations"),
            tool::items("trees", "every key tree of up to 6 keys in 3 list formats, with values and classes", tool::tree_items(pick(6, 8))),
            tool::items("values", "one value of every type and size", tool::value_items(!q)),
            tool::items("odd", "every code unit, awkward names, extreme lengths and large counts in every printed place", tool::odd_items(!q)),
            tool::items("faults", "every single-field fault, and byte faults, of a hive with everything below a subkey", tool::fault_items(!q)),
            tool::items("seed-faults", "every single-field fault of the seeds", cross::field_items(&sd32())),
            tool::items("real", "faults in the hive of the repository's tests", real::items(!q, pick(8, 1000))),
            tool::items("truncated", "prefixes of a file", tool::truncated_items()),
            tool::items("headers", "odd headers", cross::headers()),
            tool::items("intact", "intact hives of many forms", cross::intact_items(!q)),
        ],
        "C22" => inv::inert(q),
        "C23" => inv::place(q),
        "C21" => cost::drivers(q),
        "C24" => {
            let mut v = vec![crate::work::growth("growth", !q)];
            v.extend(cost::drivers(q));
            v
        }
        _ => vec![],
    }
}
