package climain

// Main is the main function of the command-line tool.
func Main() { panic("built without the overlay") }
