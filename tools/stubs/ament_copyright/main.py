def main(*a,**k): return 0
def main_with_errors(*a,**k): return 0,[]
