"""Edits of the experiment runner (C26)."""
X = 'src/xputils.rs'
C = 'C26'
ARM_P = '''            let mut solver = ParallelSolver::<P, R, O, W, NoDupFrontier<O>>::custom('''
RUN = '''            let status = solver.maximize_with_interrupt(move || start.elapsed().gt(&to));
'''
RP = '''                &mut fringe,
                threads.unwrap_or_else(num_cpus::get),
            );
''' + RUN
RB = '''                cutset_type,
                threads.unwrap_or_else(num_cpus::get),
            );
''' + RUN
PR = '''                ub,
                gap,
                solver.get_explored(),
                solver.get_explored_dd(),
            );

            ub
        },
'''
BR = PR.replace('        },\n', '        }\n    }\n}\n')
DUR = '''
            let duration = start.elapsed();
            let best_value = solver
                .best_value()
                .map(|v| v.to_string())
                .unwrap_or_else(|| "not found".to_owned());

            let lb = solver.best_lower_bound();
            let ub = solver.best_upper_bound();
            let gap = gap(lb, ub);
'''
FMT = '"{:>30} | {:>10} | {:>15} | {:>8.2} | {:>8.2} | {:>15} | {:>15} | {:>15} | {:>5.4} | {:>15} | {:>15}",'
BODY = '''
            println!(
                %s
                name,
                solver_type,
                status,
                duration.as_secs_f32(),
                PEAK_ALLOC.peak_usage_as_mb(),
                best_value,
                lb,
                ub,
                gap,
                solver.get_explored(),
                solver.get_explored_dd(),
            );

            ub
''' % FMT
AFTER = DUR + BODY
HELP = '''fn gap(lb: isize, ub: isize) -> f32 {'''


def both(a, b):
    """one edit per arm: the two occurrences are told apart by what precedes them"""
    return [(X, RP + a, RP + b), (X, RB + a, RB + b)]


EDITS = [
    # ---- refactorings
    ('report helper', [(X, RP + AFTER, RP + '            report(name, solver_type, status, start.elapsed(), solver.best_value(), solver.best_lower_bound(), solver.best_upper_bound(), solver.get_explored(), solver.get_explored_dd())\n'),
                       (X, RB + AFTER, RB + '            report(name, solver_type, status, start.elapsed(), solver.best_value(), solver.best_lower_bound(), solver.best_upper_bound(), solver.get_explored(), solver.get_explored_dd())\n'),
                       (X, HELP, '''#[allow(clippy::too_many_arguments)]
fn report(name: &str, solver_type: SolverType, status: crate::ResolutionStatus, duration: Duration, best: Option<isize>, lb: isize, ub: isize, explored: usize, explored_dd: usize) -> isize {
    let best_value = match best { Some(v) => v.to_string(), None => String::from("not found") };
    println!(
        ''' + FMT + '''
        name, solver_type, status, duration.as_secs_f32(), PEAK_ALLOC.peak_usage_as_mb(), best_value, lb, ub, gap(lb, ub), explored, explored_dd,
    );
    ub
}

''' + HELP)], 'refactor', {C}),
    ('start shared', [(X, '''            let start = Instant::now();
''' + ARM_P, ARM_P), (X, '''            let start = Instant::now();
            let mut solver = Barrier''', '            let mut solver = Barrier'), (X, '    match solver_type {', '    let start = Instant::now();\n    match solver_type {')], 'refactor', {C}),
    ('threads computed once', [(X, RP, RP.replace('threads.unwrap_or_else(num_cpus::get)', 'nb')), (X, RB, RB.replace('threads.unwrap_or_else(num_cpus::get)', 'nb')),
                               (X, '    match solver_type {', '    let nb = threads.unwrap_or(num_cpus::get());\n    match solver_type {')], 'refactor', {C}),
    ('elapsed compared the other way', [(X, RP, RP.replace('start.elapsed().gt(&to)', 'to.lt(&start.elapsed())'))], 'refactor', {C}),
    ('elapsed with >=', [(X, RP, RP.replace('start.elapsed().gt(&to)', 'start.elapsed() >= to'))], 'refactor', {C}),
    ('columns swapped in both', [(X, RP + AFTER, RP + AFTER.replace('                lb,\n                ub,\n', '                ub,\n                lb,\n')),
                                 (X, RB + AFTER, RB + AFTER.replace('                lb,\n                ub,\n', '                ub,\n                lb,\n')),
                                 (X, '"LB", "UB"', '"UB", "LB"')], 'refactor', {C}),
    ('inline format args', [(X, RP + AFTER, RP + AFTER.replace('{:>30} |', '{name:>30} |').replace('                name,\n', ''))], 'refactor', {C}),
    ('as_secs_f64', [(X, RP + AFTER, RP + AFTER.replace('as_secs_f32', 'as_secs_f64'))], 'refactor', {C}),
    ('map_or_else', [(X, RP + AFTER, RP + AFTER.replace('''.map(|v| v.to_string())
                .unwrap_or_else(|| "not found".to_owned())''', '''.map_or_else(|| "not found".to_owned(), |v| v.to_string())'''))], 'refactor', {C}),
    ('match threads', [(X, RP, RP.replace('threads.unwrap_or_else(num_cpus::get)', 'match threads { Some(n) => n, None => num_cpus::get() }'))], 'refactor', {C}),
    ('format then print', [(X, RP + AFTER, RP + AFTER.replace('println!(', 'let line = format!(').replace('            );\n', '            );\n            println!("{}", line);\n'))], 'refactor', {C}),
    ('solver new + with', [(X, ARM_P + '''
                model,
                relax,
                ranking,
                width,
                cutset_type,
                &mut fringe,
                threads.unwrap_or_else(num_cpus::get),
            );''', '''            let mut solver = ParallelSolver::<P, R, O, W, NoDupFrontier<O>>::custom(
                model,
                relax,
                ranking,
                width,
                cutset_type,
                &mut fringe,
                1,
            ).with_nb_threads(threads.unwrap_or_else(num_cpus::get));''')], 'refactor', {C}),
    ('if else', [(X, '''        SolverType::Barrier => {
            let start''', '''        _ => {
            let start''')], 'refactor', {C}),
    # ---- mutants
]


def m(name, old, new, arm='pb'):
    for a in arm:
        r = RP if a == 'p' else RB
        r0 = (r + AFTER)
        assert old in r0, (name, old)
        EDITS.append(('%s %s' % (name, a), [(X, r0, r0.replace(old, new, 1))], 'mutant', {C}))


m('lb ub swapped', '                lb,\n                ub,\n', '                ub,\n                lb,\n')
m('explored twice', 'solver.get_explored_dd()', 'solver.get_explored()')
m('explored dd first', 'solver.get_explored(),\n                solver.get_explored_dd()', 'solver.get_explored_dd(),\n                solver.get_explored()')
m('not found inverted', '.best_value()\n                .map(|v| v.to_string())\n                .unwrap_or_else(|| "not found".to_owned())', '.best_value()\n                .unwrap_or(0).to_string()')
m('best is lb', '''solver
                .best_value()
                .map(|v| v.to_string())
                .unwrap_or_else(|| "not found".to_owned())''', 'solver.best_lower_bound().to_string()')
m('gap of lb', 'gap(lb, ub)', 'gap(lb, lb)')
m('timeout below', 'start.elapsed().gt(&to)', 'start.elapsed().lt(&to)')
m('timeout ignored', 'start.elapsed().gt(&to)', '{ let _ = (start, to); false }')
m('timeout doubled', 'start.elapsed().gt(&to)', 'start.elapsed().gt(&(to * 2))')
m('timeout in millis', 'start.elapsed().gt(&to)', 'start.elapsed().as_millis() > to.as_secs() as u128')
m('timeout to fresh', 'start.elapsed().gt(&to)', '{ let _ = start; Instant::now().elapsed().gt(&to) }')
m('threads ignored', 'threads.unwrap_or_else(num_cpus::get)', 'num_cpus::get()')
m('threads default one', 'threads.unwrap_or_else(num_cpus::get)', 'threads.unwrap_or(1)')
m('threads at least two', 'threads.unwrap_or_else(num_cpus::get)', 'threads.unwrap_or_else(num_cpus::get).max(2)')
m('duration in minutes', 'duration.as_secs_f32()', 'duration.as_secs_f32() / 60.0')
m('duration subsec', 'duration.as_secs_f32()', 'duration.subsec_millis()')
m('duration timeout', 'duration.as_secs_f32()', 'to.as_secs_f32()')
m('current usage', 'peak_usage_as_mb', 'current_usage_as_mb')
m('wrong solver printed', '                solver_type,\n', '                SolverType::Parallel,\n', 'b')
m('ub of lb', 'solver.best_upper_bound()', 'solver.best_lower_bound()')
m('ub clipped', 'solver.best_upper_bound()', 'solver.best_upper_bound().max(0)')
m('maximize', 'solver.maximize_with_interrupt(move || start.elapsed().gt(&to))', 'solver.maximize()')
EDITS += [
    ('cutset constant', [(X, '''                cutset_type,
                &mut fringe''', '''                CutsetType::LastExactLayer,
                &mut fringe''')], 'mutant', {C}),
    ('cutset constant b', [(X, RB, RB.replace('cutset_type', '{ let _ = cutset_type; CutsetType::Frontier }'))], 'mutant', {C}),
    ('arms swapped', [(X, '        SolverType::Parallel => {\n            let start', '        SolverType::Barrier => {\n            let start'), (X, '        SolverType::Barrier => {\n            let start = Instant::now();\n            let mut solver = Barrier', '        SolverType::Parallel => {\n            let start = Instant::now();\n            let mut solver = Barrier')], 'mutant', {C}),
    ('header lb ub', [(X, '"LB", "UB"', '"UB", "LB"')], 'mutant', {C}),
    ('header nodes', [(X, '"NODES B&B", "NODES DD"', '"NODES DD", "NODES B&B"')], 'mutant', {C}),
    ('start after', [(X, RP + DUR, RP.replace('let status', 'let status') + '            let start = Instant::now();\n' + DUR)], 'mutant', {C}),
    ('bounds before the run', [(X, RP + DUR, RP.replace(RUN, '            let lb = solver.best_lower_bound();\n' + RUN) + DUR.replace('            let lb = solver.best_lower_bound();\n', ''))], 'mutant', {C}),
]
PSM = 'examples/psp/main.rs'
EDITS += [
    ('psp millis', [(PSM, 'Duration::from_secs(timeout as u64)', 'Duration::from_millis(timeout as u64)')], 'mutant', {C}),
    ('psp threads dropped', [(PSM, '&ranking, threads,solver', '&ranking, { let _ = threads; None },solver')], 'mutant', {C}),
    ('psp no header', [(PSM, 'Args::PrintHeader => resolution_header()', 'Args::PrintHeader => { let _ = resolution_header; }')], 'mutant', {C}),
]
EDITS = [(n, {'refactor': None, 'mutant': 'C26'}[k], e) for n, e, k, _ in EDITS]
