"""the same with the variant of the reader that uses C streams"""
import c17
def suite(run, work, dev=False): return c17.suite(run, work, dev, portable=True)
