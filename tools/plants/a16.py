ID, PROP = "c16-isa-level-mix", "C16"
NEEDS = "a filename with tags for two levels of one architecture (linux_x86_64 and linux_x86_64_v2, or android arm64_v8a beside aarch64)"
BREAKS = "levels of one baseline count as different architectures"
EDITS = [("wheeltools.py", "                    result.add(arch.baseline)\n", "                    result.add(arch)\n"),
("wheeltools.py", """        raise WheelToolsError(msg)
    return result.pop()


def get_wheel_libc""", """        raise WheelToolsError(msg)
    return result.pop().baseline


def get_wheel_libc""")]
DEMO = '''
from auditwheel.wheeltools import get_wheel_architecture
r = get_wheel_architecture("pkg-1.0-cp312-cp312-linux_x86_64.linux_x86_64_v2.whl")
assert r.value == "x86_64", r
'''
