"""Support for checks on the abstract mesh (streaming operators and boundary conditions)."""
import itertools
import math

import common
from common import absint, A, Broken
from absint import Ptr, UNDEF
import box as BX
import models
import models_la as LA
import models_mesh as MM

STOP = LA.LA_RE + r"|^dealii::(?!Point<|Tensor<|operator|cross_product|internal::Tensor|GeometryInfo|TensorAccessors|internal::NumberType|internal::ComplexWorkaround|numbers::|ExcTransf)"


def mod():
    return common.module("advection.cpp", roots="^(probe_|lay_)", extra_stop=STOP, extra=["-fno-access-control"])


class World:
    """one abstract mesh, one problem and one streaming operator"""

    def __init__(self, m, mesh, box=None, procs=1, extra=(), pre=None):
        self.m, self.mesh = m, mesh
        self.d = mesh.dim
        absint.BOX = None
        self.I = I = common.interp(m, list(extra) + MM.MESH + list(LA.LA))
        I.mod = m
        I.mesh = mesh
        I.nodes = mesh.nd
        I.cells_used = set()
        I.mpi = {"n_mpi_processes": procs, "this_mpi_process": 0}
        self.st = absint.State()
        self.layouts()
        I.tria = self.R("triangulation")
        I.dof = None

        def virt(off, ty):
            return absint.Fn("__tria_v%d" % (off - 16) if "__tria_v%d" % (off - 16) in absint.BUILTIN else "__tria_virtual")
        self.st.mem["vt:tria"] = absint.Region("vt:tria", "vt:tria", 4096, virt, self.st, "vtable")
        I.store(self.st, I.tria, Ptr("vt:tria", 16), "p")
        slot = self.raw("lay_support%d" % self.d)
        self.st.mem["vt:fe"] = absint.Region("vt:fe", "vt:fe", 4096, lambda off, ty: absint.Fn("__fe_support" if off == slot else "__fe_virtual"), self.st, "vtable")
        self.msp = self.R("mesh pointer")
        I.store(self.st, self.msp, I.tria, "p")
        I.store(self.st, Ptr(self.msp.r, 8), 0, "p")
        absint.BOX = BX.Box(box) if box else None

    def R(self, n, size=1 << 16):
        return Ptr(self.I.new_region(self.st, n, size), 0)

    def raw(self, fn, *a):
        st, r = self.I.call(self.st, fn, list(a))
        if st is None:
            if self.I.throws:
                raise MM.Fault("%s stops with an exception: %s" % (fn, str(self.I.throws[-1])[:300]))
            raise Broken("%s does not return" % fn)
        self.st = st
        return r

    def call(self, fn, *a):
        return self.raw("probe_%s%d" % (fn, self.d), *a)

    def off(self, n, d=None):
        p = self.R("layout")
        return self.raw("lay_%s%d" % (n, d or self.d), p).o

    def layouts(self):
        I = self.I
        I.quad_off = self.off("qpts")
        if self.off("qw") != I.quad_off + 24:
            raise Broken("layout of Quadrature")
        I.ncomp_off = self.off("ncomp")
        nq, dpc, fdpc = self.off("nq"), self.off("dpc"), self.off("fedpc")
        I.fe_cell_off, I.fe_face_off = fdpc, self.off("fedpf")
        I.fp_tria = {"size": self.off("tend"), "cell1": self.off("tcell"), "face": self.off("tface"), "orient": self.off("tor"), "matrix": self.off("tmat")}
        I.fp_dof = {"size": self.off("dend"), "cell1": self.off("dcell"), "face": self.off("dface"), "orient": self.off("dor"), "matrix": self.off("dmat")}

        def lay(I, st, p, n):
            I.store(st, Ptr(p.r, p.o + nq), n, "i32")
            I.store(st, Ptr(p.r, p.o + dpc), self.mesh.nloc, "i32")
        I.fev_layout = lay

    # ---- assembly of a problem ----------------------------------------------------
    def problem(self, bcs, cart=True):
        """bcs: list of (kind, args...)"""
        b = self.call("collection")
        for k, *a in bcs:
            if k == "periodic":
                self.call("add_periodic", b, *a, self.msp)
            elif k == "constant":
                self.call("add_wall_constant", b, a[0], self.vec(a[1]))
            elif k == "equilibrium":
                self.call("add_equilibrium", b, a[0], self.vec(a[1]), a[2])
            else:
                self.call("add_" + k, b, *a)
        self.coll = b
        self.prob = self.call("problem", self.msp, int(cart))
        self.call("set_boundaries", self.prob, b)

    def vec(self, xs):
        p = self.R("vector", 64)
        for k, x in enumerate(xs):
            self.I.store(self.st, Ptr(p.r, 8 * k), x, "d")
        return p

    def sl(self, which, scaling, dt0=0.0):
        self.stencil = self.call("stencil", which, scaling)
        self.op = self.call("sl", self.prob, self.mesh.p, self.stencil, dt0)

    def dg(self, which, scaling, dt0=0.0, central=0):
        self.stencil = self.call("stencil", which, scaling)
        self.op = self.call("dg", self.prob, self.mesh.p, self.stencil, dt0, central)

    def matrix(self):
        return MM.blocks(self.I, self.st, self.call("matrix", self.op))

    # ---- populations -------------------------------------------------------------
    def df(self, Q, name=None):
        """a container of populations with symbols <name><i>_<k>"""
        w = self.raw("probe_df")
        own, rel = self.R("owned", 512), self.R("relevant", 512)
        st = self.st
        st.x[("is",) + models.key(own)] = frozenset(g for g in range(self.mesh.nd) if self.mesh.dof_owner[g] == 0)
        st.x[("is",) + models.key(rel)] = frozenset(range(self.mesh.nd))
        self.raw("probe_df_reinit", w, Q, own, rel, int(self.mesh.dg))
        if name:
            for i in range(Q):
                rid, v = LA.tv_vals(self.I, self.st, self.raw("probe_df_at", w, i))
                for k in range(self.mesh.nd):
                    self.I.store(self.st, Ptr(rid, 8 * k), A.sym("%s%d_%d" % (name, i, k)), "d")
        return w

    def put(self, w, i, k, x):
        rid, v = LA.tv_vals(self.I, self.st, self.raw("probe_df_at", w, i))
        self.I.store(self.st, Ptr(rid, 8 * k), x, "d")

    def pops(self, f, i):
        return LA.tv_vals(self.I, self.st, self.raw("probe_df_at", f, i))[1]

    def events(self, kind):
        return [e for e in self.I.events if e.kind == kind] if hasattr(self.I, "events") else []


def tria_virtual(I, st, a):
    I.event(st, "triangulation", (len(a),))
    return st, 0


absint.BUILTIN["__tria_virtual"] = tria_virtual
