from common import *

META = {"rule": "value-flow summary of one evaluation of the equations of motion: every derived quantity equals its "
                "definition over the other quantities of the same evaluation, and every state handed to a table "
                "look-up already carries the final value of each documented variable"}

ALL = ("primary", "position_planet", "velocity_planet", "altitude", "altitude_geopotential", "propellant_mass",
       "gravity_acceleration", "velocity_atmosphere", "temperature", "pressure", "density", "mach_number",
       "dynamic_pressure", "euler_angles", "alpha", "aero_force_body", "thrust_force_body", "massflow",
       "vehicle_acceleration_body", "acceleration", "table_states")


def run(c):
    s = c.guard(lambda: Step(c, 1), "equations of motion")
    if s is None:
        return
    for m in ALL:
        c.guard(getattr(s, m), m, s.where)
