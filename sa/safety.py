"""Type-level witnesses and the unsafe_code lint, both through the compiler on the current tree."""
import json, os, shutil, subprocess
from sa.common import VERIF, REPO, scratch, CheckError


def cargo(dir_, flags, extra_env=None):
    env = dict(os.environ)
    env['RUSTFLAGS'] = flags
    env['CARGO_INCREMENTAL'] = '0'
    env['CARGO_TARGET_DIR'] = os.path.join(dir_, 'target')
    env.pop('RUSTC_WRAPPER', None)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-q', '--message-format=json'], cwd=dir_, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    msgs = []
    for l in r.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get('reason') == 'compiler-message':
            msgs.append(j)
    return r.returncode, msgs, r.stderr


def crate(d, name, src):
    c = os.path.join(d, name)
    os.makedirs(os.path.join(c, 'src'))
    with open(os.path.join(c, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname="%s"\nversion="0.1.0"\nedition="2021"\n[workspace]\n[dependencies]\ndiffy={path="%s"}\n'
                % (name, REPO))
    with open(os.path.join(c, 'src', 'lib.rs'), 'w') as f:
        f.write(src)
    return c


HEAD = '#![allow(dead_code, clippy::all)]\nuse diffy::*;\nfn shared<T: Send + Sync + Unpin + std::panic::UnwindSafe + std::panic::RefUnwindSafe>() {}\n' \
       'fn error<T: std::error::Error + Send + Sync + \'static>() {}\n'

# name, body, and a twin that must NOT compile (error code), differing only by the offending part
WITNESS = [
    ('thread_patch_str', "fn w<'a>() { shared::<Patch<'a, str>>(); }"),
    ('thread_patch_bytes', "fn w<'a>() { shared::<Patch<'a, [u8]>>(); }"),
    ('thread_hunk', "fn w<'a>() { shared::<Hunk<'a, str>>(); shared::<Hunk<'a, [u8]>>(); shared::<HunkRange>(); }"),
    ('thread_line', "fn w<'a>() { shared::<Line<'a, str>>(); shared::<Line<'a, [u8]>>(); }"),
    ('thread_options', "fn w() { shared::<DiffOptions>(); shared::<MergeOptions>(); shared::<ConflictStyle>(); }"),
    ('thread_formatter', "fn w() { shared::<PatchFormatter>(); }"),
    ('thread_errors', "fn w() { error::<ApplyError>(); error::<ParsePatchError>(); }"),
    ('own_options', "fn w<T: 'static>(_: T) {} fn x() { w(DiffOptions::new()); w(MergeOptions::new()); w(PatchFormatter::new()); }"),
    ('borrow_patch_only_inputs', "fn w<'a>(a: &'a str, b: &'a str) -> Patch<'a, str> { let o = DiffOptions::new(); o.create_patch(a, b) }"),
    ('borrow_patch_only_inputs_bytes', "fn w<'a>(a: &'a [u8], b: &'a [u8]) -> Patch<'a, [u8]> { let o = DiffOptions::new(); o.create_patch_bytes(a, b) }"),
    ('borrow_parse', "fn w<'a>(a: &'a str) -> Result<Patch<'a, str>, ParsePatchError> { Patch::from_str(a) }"),
    ('covariant_patch', "fn w<'s, 'l: 's>(p: Patch<'l, str>) -> Patch<'s, str> { p } fn x<'s, 'l: 's>(p: Patch<'l, [u8]>) -> Patch<'s, [u8]> { p }"),
    ('covariant_hunk', "fn w<'s, 'l: 's>(p: Hunk<'l, str>) -> Hunk<'s, str> { p } fn x<'s, 'l: 's>(p: Line<'l, str>) -> Line<'s, str> { p }"),
    ('shared_reads', "fn w(o: &DiffOptions, m: &MergeOptions, f: &PatchFormatter, p: &Patch<'_, str>) { let _ = o.create_patch(\"\", \"\"); "
                     "let _ = m.merge(\"\", \"\", \"\"); let _ = f.fmt_patch(p); let _ = apply(\"\", p); let _ = p.reverse(); let _ = p.to_bytes(); }"),
    ('results_own', "fn w<T: 'static>(_: T) {} fn x(a: &str, p: &Patch<'_, str>) { w(apply(a, p)); w(merge(a, a, a)); w(p.to_bytes()); }"),
]
# the matcher must be able to fail: each of these must be rejected with exactly this code
NEGATIVE = [
    ('neg_rc_not_shared', "fn w() { shared::<std::rc::Rc<u8>>(); }", 'E0277'),
    ('neg_cell_not_shared', "fn w() { shared::<std::cell::Cell<u8>>(); }", 'E0277'),
    ('neg_patch_outlives_input', "fn w() -> Patch<'static, str> { let s = String::new(); create_patch(&s, &s) }", 'E0515'),
    ('neg_hunks_immutable', "fn w<'a>(p: &mut Patch<'a, str>, h: Hunk<'a, str>) { p.hunks()[0] = h; }", 'E0594'),
    ('neg_private_fields', "fn w(p: Patch<'_, str>) { let _ = p.hunks; }", 'E0616'),
    ('neg_range_private', "fn w(mut p: HunkRange) { p.len = 3; }", 'E0616'),
]


def run(p, rep):
    d = scratch()
    try:
        # 1. unsafe code anywhere in the crate (the lint resolves blocks, fns, impls, attributes)
        c = crate(d, 'lint', 'pub use diffy::create_patch;\n')
        rc, msgs, err = cargo(c, '-Funsafe_code --cap-lints forbid')
        n = 0
        for j in msgs:
            m = j['message']
            if j['target']['name'] != 'diffy':
                continue
            code = (m.get('code') or {}).get('code')
            if code == 'unsafe_code' or code == 'E0453':
                sp = m['spans'][0] if m['spans'] else {'file_name': '?', 'line_start': 0, 'text': []}
                txt = sp['text'][0]['text'].strip() if sp['text'] else ''
                n += 1
                rep.bad('unsafe: %s: %s' % (sp['file_name'].replace(REPO + '/', ''), txt),
                        'unsafe code at %s:%s: %s' % (sp['file_name'], sp['line_start'], m['message']))
        if rc == 0:
            rep.good('no unsafe code in diffy (rustc lint unsafe_code, forbidden)')
        elif n == 0:
            raise CheckError('lint build failed for another reason:\n' + '\n'.join(
                (j['message'].get('rendered') or '') for j in msgs)[:2000] + err[:1000])
        # the lint is alive
        c = crate(d, 'lintneg', 'pub fn f(p: *const u8) -> u8 { unsafe { *p } }\n')
        rc, msgs, err = cargo(c, '-Funsafe_code --cap-lints forbid')
        if n == 0 and not any((j['message'].get('code') or {}).get('code') == 'unsafe_code' for j in msgs):
            raise CheckError('the unsafe_code lint did not fire on its positive example')
        # 2. type-level witnesses, all in one crate, one module each; errors are attributed by module
        src, spans, ln = HEAD, [], HEAD.count('\n') + 1
        for name, body in WITNESS:
            src += 'mod %s { use super::*; %s }\n' % (name, body)
            spans.append((ln, name))
            ln += 1
        c = crate(d, 'witness', src)
        rc, msgs, err = cargo(c, '--cap-lints allow')
        hit = {}
        for j in msgs:
            m = j['message']
            if m['level'] != 'error' or j['target']['name'] != 'witness':
                continue
            for sp in m['spans']:
                if not sp['is_primary']:
                    continue
                s = sp
                while s.get('expansion'):
                    s = s['expansion']['span']
                for l, name in spans:
                    if l == s['line_start']:
                        hit.setdefault(name, (m.get('code') or {}).get('code', '') + ' ' + m['message'] + ' ' +
                                       ' '.join(x['message'] for x in m.get('children', []))[:300])
        if rc != 0 and not hit:
            raise CheckError('witness crate does not build for another reason:\n' + '\n'.join(
                (j['message'].get('rendered') or '') for j in msgs)[:3000] + err[:1000])
        for name, body in WITNESS:
            if name in hit:
                rep.bad('witness %s' % name, 'the program { %s } no longer type-checks: %s' % (body, hit[name]))
            else:
                rep.good('witness %s type-checks' % name)
        rep.counts['type-level witnesses'] = len(WITNESS)
        # 3. compile-fail twins
        src, spans, ln = HEAD, [], HEAD.count('\n') + 1
        k = 0
        for name, body, code in NEGATIVE:
            c = crate(d, name, HEAD + body + '\n')
            env_t = os.path.join(c, 'target')
            rc, msgs, err = cargo(c, '--cap-lints allow')
            codes = {(j['message'].get('code') or {}).get('code') for j in msgs if j['message']['level'] == 'error'}
            k += 1
            if rc != 0 and code in codes:
                rep.good('compile-fail %s is rejected with %s' % (name, code))
            elif rc == 0:
                if name.startswith(('neg_rc', 'neg_cell')):
                    raise CheckError('compile-fail twin %s builds: the witness harness is dead' % name)
                rep.bad('compile-fail %s' % name, 'the violating program { %s } now builds' % body)
            else:
                rep.unk('compile-fail %s is rejected with %s, not %s' % (name, sorted(x for x in codes if x), code))
        rep.counts['compile-fail twins'] = k
    finally:
        shutil.rmtree(d, ignore_errors=True)
