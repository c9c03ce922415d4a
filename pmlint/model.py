"""Program model: parsed modules of the package under analysis."""
import ast
import hashlib
import os

REPO = os.environ.get('PMLINT_REPO', '/repo')
PKG = 'pymorphy2'


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished public anchor...)."""


class Module(object):
    def __init__(self, name, path, tree, src, is_pkg):
        self.name, self.path, self.tree, self.src, self.is_pkg = name, path, tree, src, is_pkg

    @property
    def relpath(self):
        return os.path.relpath(self.path, REPO)


class Program(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisError('package %s not found under %s' % (PKG, self.root))
        for dp, dns, fns in sorted(os.walk(base)):
            dns[:] = sorted(d for d in dns if d != '__pycache__')
            for fn in sorted(fns):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(dp, fn)
                rel = os.path.relpath(path, self.root)[:-3].split(os.sep)
                is_pkg = rel[-1] == '__init__'
                if is_pkg:
                    rel = rel[:-1]
                name = '.'.join(rel)
                with open(path, encoding='utf-8') as f:
                    src = f.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (path, e))
                self.modules[name] = Module(name, path, tree, src, is_pkg)
        self.digest = hashlib.sha256(''.join(
            '%s\0%s\0' % (n, self.modules[n].src) for n in sorted(self.modules)).encode('utf-8')).hexdigest()
        self.n_functions = sum(isinstance(n, (ast.FunctionDef, ast.Lambda))
                               for m in self.modules.values() for n in ast.walk(m.tree))
        self.n_classes = sum(isinstance(n, ast.ClassDef)
                             for m in self.modules.values() for n in ast.walk(m.tree))

    def stats(self):
        return {'modules': len([n for n in self.modules if n.startswith(PKG)]), 'functions': self.n_functions,
                'classes': self.n_classes, 'source_digest': self.digest}
