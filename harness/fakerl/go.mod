module github.com/ergochat/readline

go 1.19
