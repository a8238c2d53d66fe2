from prop_calls import run
