# Remarks of DESIGN.md that are not in the tables.
WHY = {
"C01": "Documents are built from symbolic bytes, so the path condition splits on exactly the characters the tokenizer and the scanner look at; a test samples a document, this covers all of a length.",
"C04": "The interesting inputs are namespace declarations that shadow, undeclare or repeat prefixes, and characters that need escapes; all placements within three levels are decided.",
"C05": "The failing Write (by count or by byte) is symbolic, so every position in the output is covered, including inside the escaper.",
"C09": "The whole x/text decoder is executed; long documents cross the 1024 byte sniffing window and the transform buffers.",
"C17": "Map iteration order is a symbolic permutation (a few rotations and swaps, or one arbitrary map at a time), so dependence on the order is decided, not hoped for with repeated runs.",
"C19": "The generated methods are compiled and executed symbolically on text of any characters; a test would need the one malformed text that is silently accepted.",
"C23": "Graphs are symbolic edge lists; all graphs of the size are decided, including cyclic ones and self edges.",
}
