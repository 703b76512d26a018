"""Services and clients generated from /verif/schemas by /repo's generators, and what implements them."""
import glob, hashlib, os, shutil, subprocess, tempfile
import concurrent.futures as cf
import build
from build import BuildError, VERIF, BUILD

SCHEMAS = os.path.join(VERIF, 'schemas')
GENERATOR = ['src/SchemaGenerator.cpp', 'src/SchemaLoader.cpp', 'src/GeneratorLoader.cpp', 'src/GeneratorUtil.cpp']
CLIENT = ['src/ClientGenerator.cpp', 'src/RequestLoader.cpp', 'src/SchemaLoader.cpp', 'src/GeneratorLoader.cpp', 'src/GeneratorUtil.cpp']


class Refused(Exception):
    """The generator or the compiler did not do its work: a violation, not an error of the check."""
    def __init__(self, sig, what):
        self.sig, self.what = sig, what


def tool(name, units, libs=('-lboost_program_options',)):
    import registry
    return build.link(name, [(u, ('-DUSE_STD_FILESYSTEM',)) for u in units] + registry.CORE, 'plain', libs)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def generate(exe, label, args, inputs):
    """Runs a generator in a directory of its own: {file name: path}."""
    out = os.path.join(BUILD, 'gen', digest(exe, label, *args, *[open(i, 'rb').read() for i in inputs]))
    if os.path.isdir(out):
        return out
    tmp = tempfile.mkdtemp(prefix='gen.', dir=BUILD)
    try:
        for i in inputs:
            shutil.copy(i, tmp)
        try:
            r = subprocess.run([exe, *args, '--source-dir', tmp, '--header-dir', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp, timeout=60)
        except subprocess.TimeoutExpired:
            raise Refused('generate:' + label, 'the generator does not end')
        if r.returncode:
            raise Refused('generate:' + label, 'the generator exits %d: %s' % (r.returncode, r.stdout.decode(errors='replace')[-1500:]))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        os.rename(tmp, out)
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


OPTIONS = [('--separate-files', 'f'), ('--no-stubs', 's'), ('--no-introspection', 'i')]


def service_units(schemagen, mock, name, options, opt='-O0'):
    """The units of one generated service and its implementation: [(path, flags)]."""
    ns = name + ''.join(c for o, c in OPTIONS if o in options)
    sdl = os.path.join(SCHEMAS, name + '.graphql')
    merged = os.path.join(SCHEMAS, name + '.merged.graphql')
    merged = merged if os.path.exists(merged) else sdl
    d = generate(schemagen, ns, [os.path.basename(sdl), ns.capitalize(), ns, *options], [sdl])
    header = '%s%s.h' % (ns.capitalize(), 'Objects' if '--separate-files' in options else 'Schema')
    m = os.path.join(d, 'mock-%s.cpp' % digest(mock, open(merged).read())[:8])
    if not os.path.exists(m):
        r = subprocess.run([mock, merged, ns, header, name, '1' if '--no-introspection' in options else '0'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise BuildError('gen_mock %s: %s' % (name, r.stderr.decode(errors='replace')))
        with open(m + '.%d' % os.getpid(), 'wb') as f:
            f.write(r.stdout)
        os.rename(m + '.%d' % os.getpid(), m)
    units = sorted(u for u in glob.glob(os.path.join(d, '*.cpp')) if not os.path.basename(u).startswith('mock-'))
    return [(u, (opt, '-I' + d)) for u in units + [m]], ns


def compiled(todo):
    """todo: {label: units}. Compiles all of them; returns (units of those that compile, violations)."""
    good, bad = [], []

    def one(job):
        label, u = job
        try:
            build.objects([u])
            return label, u, None
        except BuildError as e:
            return label, u, str(e)
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(one, [(l, u) for l, us in todo.items() for u in us]))
    failed = {}
    for l, u, e in res:
        if e:
            failed.setdefault(l, e)
    for l in todo:
        if l in failed:
            bad.append(Refused('compile:' + l, failed[l]))
        else:
            good += todo[l]
    return good, bad


def services(names, variants):
    """The units of every service, and what could not be made."""
    import registry
    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        a = ex.submit(tool, 'schemagen', GENERATOR)
        b = ex.submit(build.link, 'gen_mock', [registry.H('gen_mock.cpp')])
        schemagen, mock = a.result(), b.result()
    todo, bad = {}, []
    for n in names:
        for v in variants:
            try:
                u, ns = service_units(schemagen, mock, n, v)
                todo[ns] = u
            except Refused as e:
                bad.append(e)
    good, worse = compiled(todo)
    return good, bad + worse


def repeatable(names, variants):
    """Runs the generator once more for each service: violations where it does not write the same."""
    schemagen, bad = tool('schemagen', GENERATOR), []
    for n in names:
        sdl = os.path.join(SCHEMAS, n + '.graphql')
        for v in variants:
            ns = n + ''.join(c for o, c in OPTIONS if o in v)
            args = [os.path.basename(sdl), ns.capitalize(), ns, *v]
            try:
                a, b = (generate(schemagen, label, args, [sdl]) for label in (ns, ns + ' again'))
            except Refused as e:
                bad.append(e)
                continue
            files = [{os.path.basename(f): open(f, 'rb').read() for f in glob.glob(os.path.join(d, '*')) if not os.path.basename(f).startswith('mock-')} for d in (a, b)]
            for f in sorted(set(files[0]) | set(files[1])):
                if files[0].get(f) != files[1].get(f):
                    bad.append(Refused('not-repeatable', '%s of %s %s differs from one run to the next' % (f, n, ' '.join(v))))
    return bad


REQUESTS = os.path.join(VERIF, 'requests')


def clients(names=None, opt='-O0'):
    """The units of every generated client and what drives it, and what could not be made."""
    import json, registry
    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        a = ex.submit(tool, 'clientgen', CLIENT)
        b = ex.submit(build.link, 'gen_client', [registry.H('gen_client.cpp')])
        clientgen, driver = a.result(), b.result()
    todo, bad = {}, []
    for r in json.load(open(os.path.join(REQUESTS, 'index.json'))):
        n = r['name']
        if names and n not in names:
            continue
        sdl, req = (os.path.join(REQUESTS, f + '.graphql') for f in (r['schema'], r['request']))
        prefix = n.replace('-', '').capitalize()
        args = [os.path.basename(sdl), os.path.basename(req), prefix, n.replace('-', ''), *(['-o', r['op']] if r['op'] else []), *(['--no-introspection'] if r.get('nointro') else [])]
        try:
            d = generate(clientgen, n, args, [sdl, req])
            again = generate(clientgen, n + ' again', args, [sdl, req])
        except Refused as e:
            bad.append(e)
            continue
        for f in (prefix + 'Client.h', prefix + 'Client.cpp'):
            if not os.path.exists(os.path.join(d, f)):
                bad.append(Refused('generate:' + n, 'no file %s' % f))
                break
            if open(os.path.join(d, f), 'rb').read() != open(os.path.join(again, f), 'rb').read():
                bad.append(Refused('not-repeatable', '%s differs from one run to the next' % f))
        else:
            m = os.path.join(d, 'driver-%s.cpp' % digest(driver)[:8])
            if not os.path.exists(m):
                p = subprocess.run([driver, sdl, req, r['op'], prefix + 'Client.h', n, '1' if r.get('nointro') else '0'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if p.returncode:
                    raise BuildError('gen_client %s: %s' % (n, p.stderr.decode(errors='replace')))
                with open(m + '.%d' % os.getpid(), 'wb') as f:
                    f.write(p.stdout)
                os.rename(m + '.%d' % os.getpid(), m)
            todo[n] = [(u, (opt, '-I' + d)) for u in (os.path.join(d, prefix + 'Client.cpp'), m)]
    good, worse = compiled(todo)
    return good, bad + refusals(clientgen) + worse


REFUSED = [('unknown field', '{ nothing }', []), ('no selection', '{ node }', []), ('syntax', '{ node { id }', []), ('empty', '', []),
           ('unknown operation', 'query A { node { id } } query B { node { id } }', ['-o', 'C']), ('prefix of the name', 'query Ab { node { id } }', ['-o', 'A']),
           ('wrong type of a variable', 'query A($x: String) { vint_0(x: $x) }', []), ('unused variable', 'query A($x: Int) { node { id } }', []), ('unknown fragment', '{ ...F }', []),
           ('second operation', 'query A { node { id } } query B { nothing }', ['-o', 'A']), ('introspection', '{ __schema { types { name } } }', ['--no-introspection']),
           ('no such root', 'mutation { drop }', []), ('no request', None, [])]


def refusals(clientgen):
    """Requests which are refused: exit 1 with a message, and no files."""
    bad = []
    for what, text, more in REFUSED:
        tmp = tempfile.mkdtemp(prefix='gen.', dir=BUILD)
        try:
            sdl = open(os.path.join(REQUESTS, 'c1.graphql')).read()
            if what == 'no such root':
                sdl = 'type Query { drop: Boolean }'
            open(os.path.join(tmp, 's.graphql'), 'w').write(sdl)
            if text is not None:
                open(os.path.join(tmp, 'r.graphql'), 'w').write(text)
            before = set(os.listdir(tmp))
            r = subprocess.run([clientgen, 's.graphql', 'r.graphql', 'X', 'x', *more], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp, timeout=60)
            if r.returncode != 1 or not r.stdout.strip() or set(os.listdir(tmp)) != before:
                bad.append(Refused('not-refused:' + what, '%r %s: exit %d, files %s, %s' % (text, more, r.returncode, sorted(set(os.listdir(tmp)) - before), r.stdout.decode(errors='replace')[-500:])))
        except subprocess.TimeoutExpired:
            bad.append(Refused('not-refused:' + what, 'does not end'))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return bad
