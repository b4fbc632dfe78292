from . import base
from . import client_http as ch
from . import client_protocol as cp
from . import client_exec as ce, client_net as cn, client_store as cs
from . import client_run as cr
from . import confidential as cc
from . import demo
from . import locks, tracing
from . import secagg_client as sc
from . import secagg_server as ss
from . import secagg_shared as sh

REGISTRY = {
    "B01": {"units": base.UNITS, "run": [base.b01]},
    "B02": {"units": base.UNITS, "run": [base.b02]},
    "B03": {"units": locks.UNITS, "run": [locks.b03]},
    "B04": {"units": locks.UNITS, "run": [locks.b04]},
    "B05": {"units": base.UNITS, "run": [base.b05]},
    "B06": {"units": base.UNITS, "run": [base.b06]},
    "B07": {"units": base.UNITS, "run": [base.b07]},
    "B08": {"units": base.UNITS, "run": [base.b08]},
    "B09": {"units": base.UNITS, "run": [base.b09]},
    "B10": {"units": base.UNITS, "run": [base.b10]},
    "C01": {"units": cc.UNITS, "run": [cc.c01]},
    "C02": {"units": cc.UNITS, "run": [cc.c02]},
    "C03": {"units": cc.UNITS, "run": [cc.c03]},
    "C04": {"units": cc.UNITS, "run": [cc.c04]},
    "C05": {"units": cc.UNITS, "run": [cc.c05]},
    "C06": {"units": cc.UNITS, "run": [cc.c06]},
    "D01": {"units": ch.UNITS, "run": [ch.d01]},
    "D02": {"units": ch.UNITS, "run": [ch.d02]},
    "D03": {"units": ch.UNITS, "run": [ch.d03]},
    "D04": {"units": ch.UNITS, "run": [ch.d04]},
    "D05": {"units": cp.UNITS, "run": [cp.d05]},
    "D06": {"units": cp.UNITS, "run": [cp.d06]},
    "D07": {"units": cp.UNITS, "run": [cp.d07]},
    "D08": {"units": cp.UNITS, "run": [cp.d08]},
    "D09": {"units": cp.UNITS + [cp.FPU], "run": [cp.d09]},
    "D10": {"units": cp.UNITS, "run": [cp.d10]},
    "D11": {"units": cr.IR_UNITS, "run": [cr.d11]},
    "D12": {"units": cr.EL_UNITS, "run": [cr.d12]},
    "D13": {"units": cr.EL_UNITS[:1], "run": [cr.d13]},
    "D14": {"units": cr.FL_UNITS, "run": [cr.d14]},
    "D15": {"units": cr.FL_UNITS[:1], "run": [cr.d15]},
    "D16": {"units": cr.FL_UNITS, "run": [cr.d16]},
    "D17": {"units": cn.CU_UNITS, "run": [cn.d17]},
    "D18": {"units": cn.CS_UNITS, "run": [cn.d18]},
    "D19": {"units": cn.SEL_UNITS, "run": [cn.d19]},
    "D20": {"units": cn.SR_UNITS, "run": [cn.d20]},
    "E01": {"units": cs.CA_UNITS, "run": [cs.e01]},
    "E02": {"units": cs.TF_UNITS, "run": [cs.e02]},
    "E03": {"units": cs.OL_UNITS, "run": [cs.e03]},
    "E04": {"units": cs.OD_UNITS, "run": [cs.e04]},
    "E05": {"units": cs.OU_UNITS, "run": [cs.e05]},
    "E06": {"units": ce.DI_UNITS, "run": [ce.e06]},
    "E07": {"units": ce.EX_UNITS, "run": [ce.e07]},
    "E08": {"units": [ce.QRY], "run": [ce.e08]},
    "E09": {"units": ce.PO_UNITS, "run": [ce.e09]},
    "G01": {"units": tracing.UNITS, "run": [tracing.g01]},
    "G02": {"units": tracing.GEN_UNITS, "run": [tracing.g02]},
    "S01": {"units": sc.UNITS, "run": [sc.s01, sc.s07c]},
    "S02": {"units": sc.UNITS, "run": [sc.s02]},
    "S03": {"units": sc.UNITS, "run": [sc.s03]},
    "S04": {"units": sc.UNITS, "run": [sc.s04]},
    "S05": {"units": sc.UNITS, "run": [sc.s05]},
    "S06": {"units": sc.UNITS + ss.UNITS, "run": [sc.s06_client, ss.s06_server]},
    "S07": {"units": ss.UNITS, "run": [ss.s07]},
    "S08": {"units": ss.UNITS, "run": [ss.s08]},
    "S09": {"units": ss.UNITS, "run": [ss.s09]},
    "S10": {"units": ss.UNITS, "run": [ss.s10]},
    "S11": {"units": sh.UNITS + ss.UNITS + ["@inst/secagg"], "run": [sh.s11]},
    "S12": {"units": ss.UNITS, "run": [ss.s12]},
    "S13": {"units": ss.UNITS, "run": [ss.s13]},
    "S14": {"units": sh.UNITS, "run": [sh.s14]},
    "S15": {"units": sh.UNITS, "run": [sh.s15]},
    "S16": {"units": sh.UNITS, "run": [sh.s16]},
    "S17": {"units": sh.UNITS, "run": [sh.s17]},
    "F01": {"units": [], "py": demo.files, "run": [demo.f01]},
    "F02": {"units": [], "py": demo.files, "run": [demo.f02]},
    "F03": {"units": [], "py": demo.files, "run": [demo.f03]},
    "F04": {"units": [], "py": demo.files, "run": [demo.f04]},
    "F05": {"units": [], "py": demo.files, "run": [demo.f05]},
    "F06": {"units": [], "py": demo.files, "run": [demo.f06]},
    "F07": {"units": [], "py": demo.files, "run": [demo.f07]},
    "F08": {"units": [], "py": demo.files, "run": [demo.f08]},
    "F09": {"units": [], "py": demo.files, "run": [demo.f09]},
    "F10": {"units": [], "py": demo.files, "run": [demo.f10]},
    "F11": {"units": [], "py": demo.files, "run": [demo.f11]},
    "F12": {"units": [], "py": demo.files, "run": [demo.f12]},
    "F13": {"units": [], "py": demo.files, "run": [demo.f13]},
}
