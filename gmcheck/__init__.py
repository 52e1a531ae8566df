"""Static analysis of golem-messages: an abstract interpreter and its rules."""
