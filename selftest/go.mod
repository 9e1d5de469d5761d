module github.com/GottfriedHerold/Bandersnatch

go 1.19
