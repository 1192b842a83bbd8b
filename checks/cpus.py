# (simulator, type) pairs the processor independent monitors run on
CPUS = [("s51", "C52"), ("s51", "89C51R"), ("s51", "251"), ("s51", "517"), ("s51", "XC88X"), ("s51", "F380"), ("s51", "DS320"), ("s51", "DS390"),
        ("z80", "Z80"), ("z80", "Z180"), ("z80", "LR35902"), ("z80", "EZ80"), ("z80", "Z80N"), ("z80", "R800"),
        ("i8085", "8085"), ("i8085", "8080"), ("i8048", "8048"), ("i8048", "8021"), ("i8048", "8022"), ("i8048", "8041A"),
        ("m6800", "6800"), ("m6800", "6801"), ("m6809", "M6809"), ("m68hc08", "HC08"), ("m68hc08", "HCS08"), ("m68hc11", "HC11"), ("m68hc12", "HC12"),
        ("mos6502", "6502"), ("mos6502", "65C02"), ("mos6502", "65C02S"), ("mos6502", "HUC6280"), ("mos6502", "6510"),
        ("avr", "AVR"), ("stm8", "S208"), ("stm8", "S103"), ("stm8", "L151x2"), ("st7", "st7"), ("pdk", "PDK13"), ("pdk", "PDK14"), ("pdk", "PDK15"), ("pdk", "PDK16"),
        ("pblaze", "PB3"), ("pblaze", "PB6"), ("p1516", "P1516"), ("p1516", "P2223"), ("oisc", "EM"), ("oisc", "URISC"), ("oisc", "MISC16"),
        ("rxk", "R2K"), ("rxk", "R3KA"), ("rxk", "R4K"), ("f8", "F8"), ("tlcs", "TLCS90"), ("tlcs", "TLCS870C"), ("tlcs", "TLCS870C1")]
