from .base import Context, Plan
from . import plan_cipher, plan_text, plan_ecc, plan_math, plan_hash, plan_analysis
PLANS = {}
for m in (plan_cipher, plan_text, plan_ecc, plan_math, plan_hash, plan_analysis):
    PLANS.update(m.PLANS)
