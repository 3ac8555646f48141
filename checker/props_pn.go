package main

func init() {
	register("C04", "ToPN of every kind is interpreted on all paths for nodes that the factory makes from open arguments. What the result turns into with ToData, in terms of the representations of its parts, "+
		"is compared per class of node with a reviewed table. The constructors, conversions and text of each kind of PN are interpreted for up to three opaque elements and compared with that table, and the text of "+
		"strings, integers and booleans and the keys of maps with independent definitions. No node may make the conversion panic.", checkPNShapes,
		"fmt and strconv behave as documented")
}
