import glob
import os
import re
import sys

from . import driver


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    for f in sorted(glob.glob(os.path.join(driver.ROOT, "harness", "*.py"))):
        name = os.path.basename(f)[:-3]
        if re.match(prop.lower() + "_", name):
            return driver.main(prop, name, tier)
    print("no harness for", prop)
    return 2


if __name__ == "__main__":
    sys.exit(main())
