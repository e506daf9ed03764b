# simulation stub
