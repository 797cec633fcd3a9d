exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"bug1.py")).read().split("# C01")[0])
bug("B01","C20",PE,"	err := binary.Write(w, binary.BigEndian, lenV)","	err := binary.Write(w, binary.BigEndian, uint32(uint16(lenV)))")
bug("B02","C21",ML,"	for i := uint32(0); i < lenR; i++ {\n		var resp Responses","	for i := uint16(0); i < uint16(lenR); i++ {\n		var resp Responses")
bug("B03","C21",PK,"	for i := uint32(0); i < numKeys; i++ {","	for i := uint8(0); i < uint8(numKeys); i++ {")
bug("B04","C20",RS,"	for i := range res {\n		response := res[i]\n","	for i := range res {\n		if i >= 1000 {\n			break\n		}\n		response := res[i]\n")
