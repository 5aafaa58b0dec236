"""Roles of ARM cores in systems that combine several types (implementer, part) -> role; larger roles are listed first.

6: performance cores above the Cortex-A7x generation they are combined with; 5: always the big core; 4: Cortex-A57 (big next to
Cortex-A53, little next to Denver 2); 3: everything else; 2: usually little, big next to Cortex-A35; 1: always little.
The second element of a value tells the register width where the core exists, None for both."""
ROLE = {
    ("S", 0x003): (6, None), ("S", 0x004): (6, None), ("A", 0xD44): (6, None), ("A", 0xD48): (6, None), ("A", 0xD4E): (6, None),
    ("A", 0xD08): (5, None), ("A", 0xD09): (5, None), ("A", 0xD0A): (5, None), ("A", 0xD0B): (5, None), ("A", 0xD0D): (5, None),
    ("A", 0xD0E): (5, None), ("A", 0xD41): (5, None), ("A", 0xD47): (5, None), ("A", 0xD4D): (5, None), ("H", 0xD40): (5, None),
    ("N", 0x003): (5, None), ("Q", 0x205): (5, None), ("Q", 0x800): (5, None), ("Q", 0x802): (5, None), ("Q", 0x804): (5, None),
    ("S", 0x001): (5, None), ("S", 0x002): (5, None),
    ("A", 0xC0F): (5, 32), ("A", 0xC0E): (5, 32), ("A", 0xC0D): (5, 32), ("A", 0xC0C): (5, 32),
    ("A", 0xD07): (4, None),
    ("A", 0xD06): (2, 64), ("A", 0xD03): (2, None), ("A", 0xD05): (2, None), ("A", 0xD46): (2, None),
    ("A", 0xD04): (1, None), ("A", 0xC07): (1, 32), ("Q", 0x805): (1, None), ("Q", 0x803): (1, None), ("Q", 0x801): (1, None),
    ("Q", 0x211): (1, None), ("Q", 0x201): (1, None),
}
DEFAULT = 3
