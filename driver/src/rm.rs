use nanvm_lib::range_map::{from_one, from_range, merge, merge_list, Entry, RangeMap, State};

type M = RangeMap<char, State<u32>>;

fn ch(s: &str) -> char {
    char::from_u32(s.parse().unwrap()).unwrap()
}
/// `r:S:E:V` a range, `o:C:V` one char, `e:K=V,K=-,...` an entry list
fn mk(s: &str) -> M {
    let p: Vec<&str> = s.split(':').collect();
    match p[0] {
        "r" => from_range(ch(p[1])..=ch(p[2]), p[3].parse().unwrap()),
        "o" => from_one(ch(p[1]), p[2].parse().unwrap()),
        _ => RangeMap {
            list: p[1]
                .split(',')
                .filter(|x| !x.is_empty())
                .map(|x| {
                    let (k, v) = x.split_once('=').unwrap();
                    Entry {
                        key: ch(k),
                        value: State {
                            value: v.parse().ok(),
                        },
                    }
                })
                .collect(),
        },
    }
}
/// kind (`id`, `merge`, `list`), maps separated by `|`, keys to look up
pub fn serve(a: &[&str]) -> String {
    let mut maps: Vec<M> = a[1].split('|').filter(|x| !x.is_empty()).map(mk).collect();
    let m = match a[0] {
        "merge" => {
            let b = maps.pop().unwrap();
            let c = maps.pop().unwrap();
            merge(c, b)
        }
        "list" => merge_list(maps),
        _ => maps.pop().unwrap(),
    };
    a[2].split(',')
        .map(|k| match m.get(ch(k)).value {
            Some(v) => v.to_string(),
            None => "-".to_string(),
        })
        .collect::<Vec<_>>()
        .join(",")
}
