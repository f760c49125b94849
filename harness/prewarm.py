"""Derive one family of component equations and leave it in the derivative cache of this run.
The constant-power and generator equations take 10-20 s each, so they are derived side by side."""
import sys
import logic.powerflow
from models.components import load, generator, transformer, center_tap_transformer, line, slack, voltagesource

GROUPS = {"pq": [load.lh_pq], "gen": [generator.lh],
          "rest": [line.line_lh, line.shunt_lh, load.lh_Ic, transformer.xfrmr_lh, center_tap_transformer.center_tap_xfmr_lh, slack.lh, voltagesource.lh]}
for seg in GROUPS[sys.argv[1]]:
    seg.get_derivatives()
