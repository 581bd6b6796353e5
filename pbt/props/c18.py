"""C18: managing database modules only ever touches the module's own files."""
import os
import pickle
import shutil
import stat
import sys

from hypothesis import strategies as st

from core import (HarnessError, Test, Violation, eq, must, must_raise,
                  outcome, require)
import citr  # noqa: F401  (imports everything before privileges are dropped)

from citrine.cluster_tools.dbmodule import dbmodule as mod
from citrine.cluster_tools.dbmodule.dbgroup import DbGroup
from citrine.storage.transaction import TransactionManager

ID = 'C18'
LEVEL = 'exploration'
ASSUMPTIONS = [
    'run as an unprivileged user inside a scratch directory of its own',
    'the data files of a module are <name> and <name>.<anything>']
NOBODY = 65534
NAMES = ['alpha', 'beta', 'alphabet', 'x1', 'mod_2', '_hidden', 'mod_2.v1',
         'Alpha', 'alpha beta', '0', ' alpha', 'beta ', 'É', 'x-1', 'x1.db',
         'alpha,beta', '~x1', 'a' * 200]


def tree(root):
    """{relative path: content} of everything below root."""
    out = {}
    for folder, dirs, files in os.walk(root):
        rel = os.path.relpath(folder, root)
        dirs[:] = [d for d in dirs if d != '__pycache__']
        out[rel] = None
        for f in files:
            with open(os.path.join(folder, f), 'rb') as fh:
                out[os.path.normpath(os.path.join(rel, f))] = fh.read()
    return out


def spell(root, name, how):
    p = os.path.join(root, name)
    return {'plain': p, 'slash': p + '/', 'slashes': p + '//',
            'dotted': os.path.join(root, '.', name),
            'updown': os.path.join(root, name, '..', name),
            'relative': os.path.relpath(p)}[how]


def own(rel, name):
    """Is this path one of module `name`'s own files?"""
    parts = rel.split(os.sep)
    return parts[0] == name and len(parts) == 2 and (
        parts[1] in ('__init__.py', name) or
        parts[1].startswith(name + '.'))


def inside(case, ctx, top):
    root = os.path.join(top, 'root')
    os.mkdir(root)
    os.chdir(top)
    # things that have nothing to do with the modules
    outside = os.path.join(top, 'outside')
    os.mkdir(outside)
    for i, n in enumerate(['alpha', '__init__.py', 'keep.txt']):
        with open(os.path.join(outside, n), 'w') as f:
            f.write(f'outside {i}')
    os.mkdir(os.path.join(root, 'plaindir'))
    for n in ('__init__.py', 'plaindir', 'notes'):
        with open(os.path.join(root, 'plaindir', n), 'w') as f:
            f.write(f'# plain {n}\n')
    with open(os.path.join(root, 'loose.txt'), 'w') as f:
        f.write('loose')
    os.mkdir(os.path.join(root, 'broken'))
    with open(os.path.join(root, 'broken', '__init__.py'), 'w') as f:
        f.write('raise RuntimeError("not a module")\n')
    alive = {}                  # name -> discoverable
    for i in range(case['more']):
        mod.create_dbmodule(root, f'more{i}', discoverable=True)
        alive[f'more{i}'] = True
    deleted = 0
    for o in case['ops']:
        name = o['name']
        before = tree(top)
        exists = os.path.exists(os.path.join(root, name))
        rel = os.path.join('root', name)
        if o['op'] == 'create':
            base = root + ('/' if o['spell'] == 'slash' else '')
            kw = {'discoverable': o['flag']}
            if o['overwrite']:
                kw['overwrite'] = True
            if exists and not o['overwrite']:
                must_raise(IOError, mod.create_dbmodule, base, name,
                           what='create_dbmodule over an existing directory',
                           **kw)
                eq(tree(top), before, 'files after a refused creation')
                ctx.label('create refused')
                continue
            got = must(mod.create_dbmodule, base, name,
                       what='create_dbmodule', **kw)
            eq(os.path.realpath(got), os.path.realpath(
                os.path.join(root, name)), 'path of the new module')
            alive[name] = o['flag']
            after = tree(top)
            changed = {p for p in set(before) | set(after)
                       if before.get(p, 0) != after.get(p, 0)}
            require(all(p == rel or own(os.path.relpath(p, 'root'), name)
                        for p in changed),
                    f'creating {name} touched {sorted(changed)}')
            require(os.path.isfile(os.path.join(root, name, '__init__.py')),
                    'the module has no __init__.py')
            ctx.label('overwritten', exists)
        elif o['op'] == 'use':
            # a database inside, and bystanders next to it
            if name in alive:
                m = must(mod.DbModule, os.path.join(root, name),
                         what='DbModule')
                eq(m.name, name, 'name of the module database')
                conn = m.open(transaction_manager=TransactionManager())
                held = conn.container.size
                conn.update('k', name)
                conn.update(f'k{held}', 1)
                eq(conn.read('k'), name, 'read from the module database')
                conn.close()
                require(m.size >= 1, 'size of the module database')
                m.db.close()
                after = tree(top)
                changed = {p for p in set(before) | set(after)
                           if before.get(p, 0) != after.get(p, 0)}
                require(all(p == rel or own(os.path.relpath(p, 'root'), name)
                            for p in changed),
                        f'using {name} touched {sorted(changed)}')
                ctx.label('database used')
        elif o['op'] == 'bystander':
            if exists:
                for n in ('zz-notes', f'my_{name}.txt', f'{name}_notes',
                          f'{name}bet', 'init.py', 'x__init__.py',
                          f'.{name}', f'{name}~')[:1 + 7 * o['overwrite']]:
                    with open(os.path.join(root, name, n), 'w') as f:
                        f.write('keep me')
                if o['flag']:
                    os.makedirs(os.path.join(root, name, 'sub'),
                                exist_ok=True)
                    with open(os.path.join(root, name, 'sub',
                                           '__init__.py'), 'w') as f:
                        f.write('# keep me too\n')
        elif o['op'] == 'delete':
            path = spell(root, name, o['spell'])
            if not exists:
                kind, val = outcome(mod.delete_dbmodule, path)
                require(kind == 'ok' or isinstance(val, OSError),
                        f'deleting an absent module raised {val!r}')
                eq(tree(top), before, 'files after deleting nothing')
                continue
            kw = {}
            if o['flag']:
                kw['remove_empty'] = not o['overwrite']
            if o['all']:
                kw['remove_all'] = True
            must(mod.delete_dbmodule, path, what='delete_dbmodule', **kw)
            after = tree(top)
            gone = set(before) - set(after)
            require(all(after[p] == before.get(p) for p in after),
                    'deleting a module changed other files')
            alive.pop(name, None)
            deleted += 1
            if o['all']:
                want = {p for p in before
                        if p == rel or p.startswith(rel + os.sep)}
                eq(gone, want, f'what removing all of {name} deleted')
            else:
                want = {p for p in before if p.startswith(rel + os.sep) and
                        before[p] is not None and
                        own(os.path.relpath(p, 'root'), name)}
                left = {p for p in before
                        if p.startswith(rel + os.sep)} - want
                if not left and kw.get('remove_empty', True) and \
                        not os.path.exists(os.path.join(
                            root, name, '__pycache__')):
                    want = want | {rel}
                eq(gone, want, f'what deleting {path} removed')
                ctx.label('bystanders kept', bool(left))
        elif o['op'] == 'find':
            found = {os.path.basename(os.path.normpath(p))
                     for p in must(lambda: list(mod.find_dbmodules(root)),
                                   what='find_dbmodules')}
            eq(found, set(alive), 'modules found')
            eq(tree(top), before, 'files after looking for modules')
        elif o['op'] == 'group':
            extra = {}
            if o['all']:
                # modules handed over count before those discovered
                os.makedirs(os.path.join(top, 'elsewhere'), exist_ok=True)
                d = os.path.join(top, 'elsewhere', name)
                if not os.path.exists(d):
                    mod.create_dbmodule(os.path.join(top, 'elsewhere'), name)
                extra[name] = mod.DbModule(d)
            discovery = o['spell'] != 'updown'
            before = tree(top)
            g = must(DbGroup, root, what='DbGroup', discovery=discovery,
                     **({'modules': extra} if extra else {}))
            known = set(alive) if discovery else set()
            opened = list(g.modules.values()) + list(extra.values())
            try:
                eq(set(g.modules), known | set(extra), 'modules of the group')
                for n, m in extra.items():
                    require(g.modules[n] is m, f'the module given for {n} '
                                               f'was replaced')
                for n, m in g.modules.items():
                    if n not in extra:
                        eq(os.path.realpath(m.path), os.path.realpath(
                            os.path.join(root, n)), f'path of {n}')
                eq({n: d.database_name for n, d in g.databases.items()},
                   {n: n for n in g.modules}, 'databases of the group')
                require(all(g.databases[n] is m.db and m() is m.db
                            for n, m in g.modules.items()),
                        'databases of the group are not its modules\'')
                eq(g.size, sum(m.size for m in g.modules.values()),
                   'size of the group')
                before = tree(top)
                if not extra and o['flag'] and exists and name in alive:
                    if name in g.modules:
                        g.modules[name].db.close()
                    before = tree(top)
                    must(g.destroy_dbmodule, name,
                         what='group.destroy_dbmodule')
                    require(name not in g.modules,
                            'still part of its group after destruction')
                    require(name not in g.databases, 'database still listed')
                    alive.pop(name)
                    deleted += 1
                    mine = {p for p in before
                            if own(os.path.relpath(p, 'root'), name)}
                    others = {p for p in before if
                              p.startswith(rel + os.sep)} - mine
                    want = mine if others else mine | {rel}
                    eq(set(before) - set(tree(top)), want,
                       f'what destroying {name} removed')
                elif not extra:
                    # creating, over something if asked for
                    old = g.modules.get(name)
                    if old is not None:
                        old.db.close()
                        before = tree(top)
                    kw = {'overwrite': True} if o['overwrite'] else {}
                    if exists and not o['overwrite']:
                        must_raise(IOError, g.create_dbmodule, name=name,
                                   what='group.create_dbmodule over another',
                                   **kw)
                        require(g.modules.get(name) is old,
                                'module lost by a refused creation')
                    else:
                        arg = name if o['spell'] != 'dotted' else None
                        new = must(g.create_dbmodule, name=arg,
                                   what='group.create_dbmodule', **kw)
                        opened.append(new)
                        if arg is None:
                            require(new.name and new.name not in alive,
                                    f'unnamed module called {new.name!r}')
                        else:
                            eq(new.name, name, 'name of the new module')
                        require(g.modules.get(new.name) is new and
                                g.databases.get(new.name) is new.db,
                                'the new module is not part of its group')
                        eq(new.size, 0, 'size of a new module')
                        alive[new.name] = True
                        rel = os.path.join('root', new.name)
                    after = tree(top)
                    changed = {p for p in set(before) | set(after)
                               if before.get(p, 0) != after.get(p, 0)}
                    lock = {p for p in changed if p.endswith('.lock')}
                    n = os.path.basename(rel)
                    require(all(p == rel or own(os.path.relpath(p, 'root'), n)
                                for p in changed - lock),
                            f'creating {n} in a group touched '
                            f'{sorted(changed)}')
            finally:
                for m in opened:
                    m.db.close()
            after = tree(top)
            for p in before:
                parts = p.split(os.sep)
                if parts[:1] == ['outside'] or parts[1:2] in (
                        ['plaindir'], ['loose.txt'], ['broken']):
                    eq(after.get(p, 'gone'), before[p], f'bystander {p}')
            if extra and discovery and name in alive:
                break       # the replaced module's file stays locked
    for n in list(alive):
        require(os.path.isfile(os.path.join(root, n, '__init__.py')),
                f'module {n} lost its __init__.py')
    ctx.nontrivial(deleted > 0 and len(case['ops']) > 2)


def run(case, ctx):
    """The case in a forked child without privileges."""
    top = ctx.tmp
    os.chmod(top, 0o777)
    out = os.path.join(top, 'result')
    work = os.path.join(top, 'work')
    os.mkdir(work)
    os.chown(work, NOBODY, NOBODY)
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
            os.environ['HOME'] = work
            sys.dont_write_bytecode = True
            res = ['ok', None, ctx.labels, False]
            try:
                inside(case, ctx, work)
                res = ['ok', None, ctx.labels, ctx.is_nontrivial]
            except Violation as e:
                res = ['violation', str(e), {}, False]
            except BaseException as e:
                import traceback
                from core import _classify
                kind = 'harness'
                if isinstance(e, Exception) and \
                        _classify(e) == 'violation':
                    kind = 'violation'
                res = [kind, traceback.format_exc(), {}, False]
            data = pickle.dumps(res)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    kind, msg, labels, nontrivial = pickle.loads(data)
    ctx.labels.update(labels)
    ctx.nontrivial(nontrivial)
    if kind == 'violation':
        raise Violation(msg)
    if kind == 'harness':
        raise HarnessError(msg)


OP = st.fixed_dictionaries({
    'op': st.sampled_from(['create', 'create', 'create', 'delete', 'delete',
                           'use', 'use', 'bystander', 'bystander', 'find',
                           'group']),
    'name': st.sampled_from(['alpha'] * 6 + ['alphabet'] * 2 + NAMES),
    'spell': st.sampled_from(['plain', 'slash', 'slashes', 'dotted',
                              'updown', 'relative']),
    'flag': st.booleans(),
    'overwrite': st.sampled_from([False, False, True]),
    'all': st.sampled_from([False, False, False, True])})

TESTS = [
    Test('files', lambda: st.fixed_dictionaries({
        'more': st.sampled_from([0, 0, 0, 0, 0, 0, 9, 20]),
        'ops': st.lists(OP, min_size=4, max_size=16) | st.lists(
            OP, min_size=4, max_size=16) | st.lists(OP, min_size=4, max_size=16)
        | st.lists(OP, min_size=16, max_size=50)}), run, quick=800,
        procs=8,
        rule='create/overwrite/use/find/delete sequences over modules with '
             'similar names, by differently spelled paths, next to files '
             'that must survive; non-trivial = a module was deleted'),
]
